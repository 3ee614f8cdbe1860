#include "h.h"
#include <wreport/bulletin.h>
#include <wreport/subset.h>
#include <wreport/tables.h>
#include <wreport/vartable.h>
using namespace wreport;
// encodes a bulletin of ns subsets of nv values 0 12 101 and compares every byte of the message
static int t_enc(std::mt19937&R,unsigned ed,size_t optlen,unsigned ns,unsigned nv){
    auto b=BufrBulletin::create();b->edition_number=ed;b->master_table_version_number=14+R()%10;b->originating_centre=0;b->originating_subcentre=0;b->master_table_number=0;b->load_tables();
    b->master_table_number=R()%3?R():0;b->originating_centre=R()%3?R():R()%256;b->originating_subcentre=R()%3?R():R()%256;b->data_category=R();b->data_subcategory=R();b->data_subcategory_local=R();b->update_sequence_number=R();
    b->rep_year=R()%4?1951+R()%100:R();b->rep_month=R();b->rep_day=R();b->rep_hour=R();b->rep_minute=R();b->rep_second=R();b->master_table_version_number_local=R();
    b->optional_section.resize(optlen);for(auto&c:b->optional_section)c=optlen>1000?'x':R();
    std::string data,bits;
    for(unsigned i=0;i<nv;++i)b->datadesc.push_back(WR_VAR(0,12,101));
    unsigned width=0;
    if(ns){for(unsigned s=0;s<ns;++s){Subset&u=b->obtain_subset(s);for(unsigned i=0;i<nv;++i){Varinfo vi=b->tables.btable->query(WR_VAR(0,12,101));width=vi->bit_len;Var v(vi);unsigned raw=(1u<<width)-1;if(R()%4){raw=R()%10000;v.setd(vi->decode_binary(raw));}u.store_variable(std::move(v));for(int k=width-1;k>=0;--k)bits+=(raw>>k&1)?'1':'0';}}}
    std::string out;std::string e=outcome([&]{out=b->encode();});
    if(ed<2||ed>4)return e=="error_unimplemented"?0:bad("edition %u: '%s'",ed,e.c_str());
    while(bits.size()%8)bits+='0';for(size_t i=0;i<bits.size();i+=8)data+=(char)strtoul(bits.substr(i,8).c_str(),0,2);
    auto n3=[](size_t n){return std::string{(char)(n>>16),(char)(n>>8),(char)n};};auto n2=[](unsigned n){return std::string{(char)(n>>8),(char)n};};auto c1=[](unsigned c){return std::string(1,(char)c);};
    std::string s1,s2,s3,s4;std::string fl=c1(optlen?0x80:0);
    if(ed==4)s1=n3(22)+c1(b->master_table_number)+n2(b->originating_centre)+n2(b->originating_subcentre)+c1(b->update_sequence_number)+fl+c1(b->data_category)+c1(b->data_subcategory)+c1(b->data_subcategory_local)+c1(b->master_table_version_number)+c1(b->master_table_version_number_local)+n2(b->rep_year)+c1(b->rep_month)+c1(b->rep_day)+c1(b->rep_hour)+c1(b->rep_minute)+c1(b->rep_second);
    else s1=n3(18)+c1(b->master_table_number)+c1(b->originating_subcentre)+c1(b->originating_centre)+c1(b->update_sequence_number)+fl+c1(b->data_category)+c1(b->data_subcategory_local)+c1(b->master_table_version_number)+c1(b->master_table_version_number_local)+c1(b->rep_year==2000?100:b->rep_year%100)+c1(b->rep_month)+c1(b->rep_day)+c1(b->rep_hour)+c1(b->rep_minute)+c1(b->rep_year/100);
    if(optlen){s2=b->optional_section;if(s2.size()%2)s2+='\0';s2=n3(s2.size()+4)+c1(0)+s2;}
    s3=n3(8+2*b->datadesc.size())+c1(0)+n2(ns)+c1(128);for(auto c:b->datadesc)s3+=n2(c);s3+=c1(0);
    s4=data;if(s4.size()%2)s4+='\0';s4=n3(s4.size()+4)+c1(0)+s4;
    size_t tot=8+s1.size()+s2.size()+s3.size()+s4.size()+4;
    if(!ns||!nv||ns>65535||tot>0xffffff)return e=="error_consistency"?0:bad("bulletin with %u subsets of %u values and optional section of %zu: '%s'",ns,nv,optlen,e.c_str());
    if(e!="")return bad("good bulletin not encoded: %s",e.c_str());
    std::string w="BUFR"+n3(tot)+c1(ed)+s1+s2+s3+s4+"7777";
    if(out!=w){size_t i=0;while(i<out.size()&&i<w.size()&&out[i]==w[i])++i;return bad("edition %u optional section %zu %u subsets of %u: byte %zu differs (%zu bytes, expected %zu) %s instead of %s",ed,optlen,ns,nv,i,out.size(),w.size(),hex(out.substr(i,8)).c_str(),hex(w.substr(i,8)).c_str());}
    std::unique_ptr<BufrBulletin> d;e=outcome([&]{d=BufrBulletin::decode(out);});if(e=="error_notfound"||e=="error_consistency")return 0;
    if(e!="")return bad("encoded message not decoded: %s",e.c_str());
    if(d->datadesc!=b->datadesc||d->subsets.size()!=ns||d->compression||d->rep_month!=b->rep_month||d->rep_minute!=b->rep_minute||d->master_table_number!=b->master_table_number||d->update_sequence_number!=b->update_sequence_number||d->data_category!=b->data_category||(ed==4&&(d->originating_centre!=b->originating_centre||d->originating_subcentre!=b->originating_subcentre||d->rep_year!=b->rep_year||d->rep_second!=b->rep_second))||(ed!=4&&b->rep_year>1950&&b->rep_year<2051&&d->rep_year!=b->rep_year))return bad("header decoded differently");
    std::string o=b->optional_section;if(o.size()%2)o+='\0';if(d->optional_section!=o)return bad("optional section decoded differently");
    for(unsigned s=0;s<ns;++s){if(d->subsets[s].size()!=nv)return bad("%zu values decoded instead of %u",d->subsets[s].size(),nv);for(unsigned i=0;i<nv;++i)if(!(d->subsets[s][i]==b->subsets[s][i])&&d->tables.btable->query(WR_VAR(0,12,101))==b->tables.btable->query(WR_VAR(0,12,101)))return bad("value decoded differently");}
    return 0;}
CMD(encode_header){std::mt19937 R(1);for(int i=0;i<20;++i)if(t_enc(R,U(a[0]),U(a[1]),U(a[2]),U(a[3])))return 1;return 0;}
SEARCH(encode_header){
    for(int q=0;q<6000;++q){unsigned ed=R()%10?2+R()%3:R()%256;if(t_enc(R,ed,R()%2?0:R()%12,R()%12?1+R()%5:0,R()%12?1+R()%4:0))return 1;}
    if(t_enc(R,4,0,65535,1)||t_enc(R,4,0,65536,1)||t_enc(R,3,(1<<24)-60,1,1)||t_enc(R,3,(1<<24)-1,1,1)||t_enc(R,4,1<<24,1,1))return 1;
    return 0;}
