#include "h.h"
#include <wreport/buffers/crex.h>
#include <wreport/bulletin.h>
#include <wreport/subset.h>
#include <wreport/tables.h>
#include <wreport/vartable.h>
#include <climits>
using namespace wreport;
namespace {
std::string vis(const std::string&s){std::string r;char b[8];for(unsigned char c:s)if(c>=32&&c<127&&c!='\\')r+=c;else{snprintf(b,8,"\\x%02x",c);r+=b;}return r;}
const std::vector<unsigned> EL={WR_VAR(0,1,1),WR_VAR(0,1,2),WR_VAR(0,12,1),WR_VAR(0,1,15),WR_VAR(0,1,19),WR_VAR(0,7,4),WR_VAR(0,4,1),WR_VAR(0,1,41),WR_VAR(0,20,3),WR_VAR(0,5,1)};
int message(std::mt19937&R){
    auto b=CrexBulletin::create();b->clear();b->edition_number=1;b->master_table_number=0;b->master_table_version_number=3;b->master_table_version_number_bufr=0;b->data_category=R()%256;b->data_subcategory=R()%2?255:R()%255;b->data_subcategory_local=0;b->has_check_digit=R()%2;
    bool chk=b->has_check_digit;int dig=1;char t[64];std::string hdr="CREX++\r\r\n",data;
    snprintf(t,64,b->data_subcategory==255?"T000103 A%03u":"T000103 A%03u%03u",b->data_category,b->data_subcategory);hdr+=t;
    unsigned n=1+R()%6;std::vector<int> kind;std::vector<std::vector<unsigned>> items;
    for(unsigned i=0;i<n;++i){int k=R()%4;unsigned m=k?1+R()%2:1;std::vector<unsigned> g;for(unsigned j=0;j<m;++j)g.push_back(EL[R()%EL.size()]);kind.push_back(k);items.push_back(g);
        if(k==1||k==3)b->datadesc.push_back(WR_VAR(1,m,0));if(k==3)b->datadesc.push_back(WR_VAR(0,31,R()%3));if(k==2)b->datadesc.push_back(WR_VAR(1,m,2));for(unsigned c:g)b->datadesc.push_back(c);}
    b->load_tables();
    for(unsigned d:b->datadesc){if((d>>8)==31&&(d&255)<3&&!b->tables.btable->contains(d))return 0;}
    for(unsigned d:b->datadesc){if((d>>8)==31&&(d&255)<3)continue;snprintf(t,64," %c%02u%03u","BRCD"[d>>14],(d>>8)&63,d&255);hdr+=t;}
    if(chk)hdr+=" E";
    hdr+="++\r\r\n";
    auto field=[&](const std::string&f){data+=' ';if(chk){data+=char('0'+dig);dig=(dig+1)%10;}data+=f;};
    unsigned ns=1+R()%3;
    for(unsigned s=0;s<ns;++s){Subset&o=b->obtain_subset(s);if(s)data+="+\r\r\n";
        for(unsigned i=0;i<n;++i){unsigned times=1;
            if(kind[i]==2)times=2;
            if(kind[i]==1||kind[i]==3){times=R()%4==0?10+R()%6:R()%3;o.store_variable_i(kind[i]==1?WR_VAR(0,31,12):WR_VAR(0,31,1),times);snprintf(t,64,"%04u",times);field(t);}
            for(unsigned k=0;k<times;++k)for(unsigned c:items[i]){Varinfo inf=b->tables.btable->query(c);unsigned len=inf->len;
                if(R()%5==0){o.store_variable_undef(c);field(std::string(len,'/'));continue;}
                if(inf->type==Vartype::String){unsigned z=1+R()%len;std::string v;for(unsigned q=0;q<z;++q)v+=(char)(q==0||q+1==z?'A'+R()%26:32+R()%90);o.store_variable_c(c,v.c_str());field(v+std::string(len-z,' '));}
                else{long lo=inf->imin,hi=inf->imax;long x=R()%3?lo+(long)(R()%(unsigned)1000000)%(hi-lo+1):(R()%2?lo:hi);if(R()%4==0&&lo<-9)x=-(long)(R()%10);if(x<lo||x>hi)x=hi;Var v(inf);v.seti((int)x);o.store_variable(v);snprintf(t,64,"%0*ld",(int)len+(x<0),x);field(t);}}}}
    std::string want=hdr+data+"++\r\r\n7777\r\r\n",got;
    try{got=b->encode();}catch(std::exception&e){return bad("encoding fails with %s %s: %s",exc_name(e).c_str(),e.what(),vis(want).c_str());}
    if(got!=want)return bad("encoded as %s instead of %s",vis(got).c_str(),vis(want).c_str());
    return 0;}
int header(std::mt19937&R){
    // no data: any descriptor can be in the list
    auto b=CrexBulletin::create();b->clear();unsigned n=R()%6;b->edition_number=n?R()%100:1;b->master_table_number=n?R()%100:0;b->master_table_version_number=n?R()%100:3;b->master_table_version_number_bufr=0;if(!n)b->load_tables();unsigned lim[]={256,3,130};b->data_category=R()%lim[R()%3];b->data_subcategory=R()%3==0?255:R()%lim[R()%3];b->has_check_digit=R()%2;
    char t[64];snprintf(t,64,b->data_subcategory==255?"T%02u%02u%02u A%03u":"T%02u%02u%02u A%03u%03u",b->master_table_number,b->edition_number,b->master_table_version_number,b->data_category,b->data_subcategory);std::string want=std::string("CREX++\r\r\n")+t;
    for(unsigned i=0;i<n;++i){unsigned d=R()%3?R()%65536:((R()%2?0:R()%4)<<14|31<<8|R()%14);b->datadesc.push_back(d);if((d>>8)==31&&(d&255)<3)continue;snprintf(t,64," %c%02u%03u","BRCD"[d>>14],(d>>8)&63,d&255);want+=t;}
    if(b->has_check_digit)want+=" E";
    want+="++\r\r\n";
    if(n==0){unsigned ns=R()%4;for(unsigned i=0;i<ns;++i){b->obtain_subset(i);if(i)want+="+\r\r\n";}}
    want+="++\r\r\n7777\r\r\n";std::string got;
    try{got=b->encode();}catch(std::exception&e){return bad("encoding fails with %s %s: %s",exc_name(e).c_str(),e.what(),vis(want).c_str());}
    if(got!=want)return bad("encoded as %s instead of %s",vis(got).c_str(),vis(want).c_str());
    return 0;}
int bad_count(std::mt19937&R){
    auto mk=[&](int v,bool set){auto b=CrexBulletin::create();b->clear();b->edition_number=1;b->master_table_number=0;b->master_table_version_number=3;b->master_table_version_number_bufr=0;b->data_category=0;b->data_subcategory=255;b->datadesc={WR_VAR(1,1,0),WR_VAR(0,1,1)};b->load_tables();Subset&o=b->obtain_subset(0);
        if(set)o.store_variable_i(WR_VAR(0,31,12),v);else o.store_variable_undef(WR_VAR(0,31,12));return b;};
    std::string o=outcome([&]{mk(0,false)->encode();});if(o.empty())return bad("a missing replication factor is encoded");
    return 0;}
int prim(std::mt19937&R){
    std::string s="x",e="x";buffers::CrexOutput o(s);if(o.has_check_digit||o.expected_check_digit)return bad("CrexOutput constructor");
    o.has_check_digit=R()%2;o.expected_check_digit=R()%10;int d=o.expected_check_digit;
    for(int i=0;i<20;++i)switch(R()%5){
        case 0:{unsigned n=R()%9;o.raw_append("abcdefgh",n);e.append("abcdefgh",n);break;}
        case 1:o.encode_check_digit();if(o.has_check_digit){e+=char('0'+d);d=(d+1)%10;}break;
        case 2:{std::string l(R()%3?R()%20:250+R()%20+(R()%3==0?2000:0),'q');o.raw_appendf("%s-%d",l.c_str(),i);e+=l+"-"+std::to_string(i);break;}
        case 3:{_Varinfo v;v.set_string(WR_VAR(0,1,1),"x",1+R()%300);Var x(&v);if(R()%2)o.append_missing(&v);else o.append_var(&v,x);e+=' ';if(o.has_check_digit){e+=char('0'+d);d=(d+1)%10;}e+=std::string(v.len,'/');break;}
        case 4:{_Varinfo v;v.set_string(WR_VAR(0,1,1),"x",1+R()%300);Var x(&v);std::string l(1+R()%v.len,'z');x.setc(l.c_str());o.append_var(&v,x);e+=' ';if(o.has_check_digit){e+=char('0'+d);d=(d+1)%10;}e+=l+std::string(v.len-l.size(),' ');break;}}
    if(s!=e)return bad("CrexOutput writes %s instead of %s",vis(s).c_str(),vis(e).c_str());
    if(o.expected_check_digit!=d)return bad("CrexOutput check digit %d instead of %d",o.expected_check_digit,d);
    return 0;}
}
SEARCH(crexenc){for(int i=0;i<800;++i){int r;if((r=prim(R)))return r;if((r=message(R)))return r;if((r=header(R)))return r;if(i==0&&(r=bad_count(R)))return r;}return 0;}
