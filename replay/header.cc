#include "h.h"
#include <wreport/bulletin.h>
#include <wreport/subset.h>
using namespace wreport;
// what a BUFR message says, read byte by byte
struct Hd { bool ok=false; unsigned ed,mtn,ce,sc,upd,cat,sub,lsub,mtv,mtvl,y,mo,d,h,mi,s; bool opt,comp; std::string osec; unsigned nsub; std::vector<unsigned> dd; uint64_t e[7]; };
static Hd spec(const std::string&m){Hd r;auto B=[&](uint64_t i)->unsigned{return (unsigned char)m[i];};auto N=[&](uint64_t i){return B(i)<<16|B(i+1)<<8|B(i+2);};uint64_t L=m.size();
    if(L<8||m.compare(0,4,"BUFR"))return r;r.ed=B(7);if(r.ed<2||r.ed>4)return r;
    if(L<11)return r;uint64_t s2=8+N(8);if(s2>L)return r;unsigned fx=r.ed==4?22:18;if(8+fx>L)return r;
    r.opt=B(8+(r.ed==4?9:7))&0x80;uint64_t s3=s2;if(r.opt){if(s2+3>L)return r;s3=s2+N(s2);if(s3>L)return r;}
    if(s3+3>L)return r;uint64_t s4=s3+N(s3);if(s4>L||s4+3>L)return r;uint64_t s5=s4+N(s4);if(s5>L)return r;
    if(s3!=s2&&s3-s2<4)return r;if(s4-s3<8)return r;
    r.ok=true;uint64_t e[]={8,s2,s3,s4,s5,s5+4,0};memcpy(r.e,e,sizeof e);
    if(s3!=s2)r.osec=m.substr(s2+4,s3-s2-4);r.nsub=B(s3+4)<<8|B(s3+5);r.comp=B(s3+6)&0x40;for(uint64_t p=s3+7;p+1<s4;p+=2)r.dd.push_back(B(p)<<8|B(p+1));
    const unsigned char*o=(const unsigned char*)m.data()+8;r.mtn=o[3];
    if(r.ed==4){r.ce=o[4]<<8|o[5];r.sc=o[6]<<8|o[7];r.upd=o[8];r.cat=o[10];r.sub=o[11];r.lsub=o[12];r.mtv=o[13];r.mtvl=o[14];r.y=o[15]<<8|o[16];r.mo=o[17];r.d=o[18];r.h=o[19];r.mi=o[20];r.s=o[21];}
    else{r.sc=o[4];r.ce=o[5];r.upd=o[6];r.cat=o[8];r.sub=255;r.lsub=o[9];r.mtv=o[10];r.mtvl=o[11];r.y=o[12]>50?1900+o[12]:2000+o[12];r.mo=o[13];r.d=o[14];r.h=o[15];r.mi=o[16];r.s=0;}
    return r;}
static int same(const Hd&w,const BufrBulletin&b,const std::string&m){
#define F(x,y) if((unsigned)b.x!=(unsigned)w.y)return bad("%s is %u instead of %u in %s",#x,(unsigned)b.x,(unsigned)w.y,hex(m).c_str());
    F(edition_number,ed)F(master_table_number,mtn)F(originating_centre,ce)F(originating_subcentre,sc)F(update_sequence_number,upd)F(data_category,cat)F(data_subcategory,sub)F(data_subcategory_local,lsub)
    F(master_table_version_number,mtv)F(master_table_version_number_local,mtvl)F(rep_year,y)F(rep_month,mo)F(rep_day,d)F(rep_hour,h)F(rep_minute,mi)F(rep_second,s)F(compression,comp)F(datadesc.size(),dd.size())
    for(size_t i=0;i<w.dd.size();++i)if(b.datadesc[i]!=w.dd[i])return bad("descriptor %zu is %04x instead of %04x in %s",i,b.datadesc[i],w.dd[i],hex(m).c_str());
    if(b.optional_section!=w.osec)return bad("optional section is %s instead of %s in %s",hex(b.optional_section).c_str(),hex(w.osec).c_str(),hex(m).c_str());return 0;}
static int t_header(const std::string&m0){std::string m(m0.data(),m0.size());m.reserve(m.size()>15?m.size():16);m.shrink_to_fit();
    Hd w=spec(m);std::unique_ptr<BufrBulletin> b;std::string e=outcome([&]{b=BufrBulletin::decode_header(m);});
    if(!w.ok)return e=="error_parse"||e=="error_consistency"?0:bad("header that is not a BUFR header: '%s' %s",e.c_str(),hex(m).c_str());
    if(e=="error_notfound")return 2;
    if(e!="")return bad("good header refused: %s %s",e.c_str(),hex(m).c_str());
    if(same(w,*b,m))return 1;
    // and the data
    std::unique_ptr<BufrBulletin> c;e=outcome([&]{c=BufrBulletin::decode(m);});
    bool end=w.e[4]+4<=m.size()&&!m.compare(w.e[4],4,"7777");
    if(e==""){
        if(!end)return bad("message without end section accepted: %s",hex(m).c_str());
        if(!w.nsub)return bad("message without subsets accepted: %s",hex(m).c_str());
        if(same(w,*c,m))return 1;
        if(c->subsets.size()!=w.nsub)return bad("%zu subsets instead of %u in %s",c->subsets.size(),w.nsub,hex(m).c_str());
        for(int i=0;i<6;++i)if(c->section_end[i]!=w.e[i])return bad("section %d ends at %u instead of %u in %s",i,c->section_end[i],(unsigned)w.e[i],hex(m).c_str());
        if(w.dd==std::vector<unsigned>{0x0c65})for(auto&s:c->subsets)if(s.size()!=1)return bad("%zu values instead of 1 in %s",s.size(),hex(m).c_str());
    }else if(e=="error_notfound")return 2;
    else if(end&&w.nsub&&w.dd==std::vector<unsigned>{0x0c65}&&!w.comp&&(w.e[4]-w.e[3]-4)*8>=16*w.nsub)return bad("good message refused: %s %s",e.c_str(),hex(m).c_str());
    else if(w.dd.empty()&&end&&w.nsub)return bad("good message without descriptors refused: %s %s",e.c_str(),hex(m).c_str());
    else if(e.compare(0,4,"std:")==0)return bad("%s on %s",e.c_str(),hex(m).c_str());
    return 0;}
CMD(header){return t_header(unhex(a[0]));}
SEARCH(header){
    for(int q=0;q<20000;++q){
        unsigned ed=2+R()%3;std::string s1(ed==4?22:18,0);for(auto&c:s1)c=R();if(R()%4==0)s1.resize(s1.size()+R()%6,'x');
        bool opt=R()%2;s1[ed==4?9:7]=opt?0x80|R()%128:R()%128;if(R()%4)s1[3]=0;
        if(R()%5){if(ed==4){s1[4]=s1[5]=s1[6]=s1[7]=0;s1[13]=14+R()%16;s1[14]=0;}else{s1[4]=0;s1[5]=R()%2?0:98;s1[10]=14;s1[11]=0;}}
        std::string s2;if(opt){s2.resize(4+R()%9);for(auto&c:s2)c=R();}
        unsigned ns=R()%4?1+R()%4:R()%3*255;std::string s3(8+2*(R()%3?1:R()%5)-(R()%5==0),0);for(auto&c:s3)c=R();s3[4]=ns>>8;s3[5]=ns;if(R()%2)s3[6]&=0xbf;if(s3.size()>=9){s3[7]=0x0c;s3[8]=0x65;}
        std::string s4(4+2*ns+R()%20,0);for(auto&c:s4)c=R()%4?R()%128:255;
        auto put=[&](std::string&s){unsigned n=s.size();if(R()%60==0)n+=(int)(R()%7)-3;s[0]=n>>16;s[1]=n>>8;s[2]=n;};
        put(s1);if(opt)put(s2);put(s3);put(s4);
        std::string m="BUFR";m+=(char)0;m+=(char)0;m+=(char)0;m+=(char)ed;m+=s1+s2+s3+s4;if(R()%12)m+="7777";else m+="777";
        if(R()%8==0)m.resize(R()%(m.size()+1));else if(R()%8==0)m+="trail";if(R()%30==0&&m.size()>8)m[R()%8]=R();
        if(t_header(m)==1)return 1;}
    return 0;}
