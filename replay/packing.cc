#include "h.h"
#include <climits>
using namespace wreport; using buffers::BufrOutput;
typedef long double LD;
_Varinfo mkinfo(int type,int scale,int imin,int imax);
static LD p10(int k){LD r=1;for(int i=0;i<(k<0?-k:k);++i)r*=10;return r;}
static LD val(LD n,int scale){return scale>=0?n/p10(scale):n*p10(scale);}
static LD unval(LD d,int scale){return scale>=0?d*p10(scale):d/p10(scale);}
static _Varinfo mk(int scale,unsigned code,int ref,unsigned bl,int lo=INT_MIN,int hi=INT_MAX){_Varinfo i=mkinfo(scale?1:0,scale,lo,hi);i.code=code;i.bit_ref=ref;i.bit_len=bl;i.dmin=i.decode_decimal(lo);i.dmax=i.decode_decimal(hi);return i;}
static uint64_t ones(unsigned bl){return (1ull<<bl)-1;}
struct O { O(int s,int c){options::var_silent_domain_errors=s;options::var_clamp_domain_errors=c;} ~O(){options::var_silent_domain_errors=false;options::var_clamp_domain_errors=false;} };
static int t_encbin(int k,int ref,unsigned bl,double d){
    if(k<-24||k>24||bl>32||!(fabsl(unval(d,k))<1e12L))return 2;
    _Varinfo i=mk(k,WR_VAR(0,12,101),ref,bl);unsigned r=0;std::string e=outcome([&]{r=i.encode_binary(d);});
    if(!bl)return e=="error_consistency"?0:bad("encode_binary without bits: '%s'",e.c_str());
    LD x=unval(d,k)-ref;LD eps=1e-3L;
    if(e!=""){ if(e!="error_consistency"||!(x<=-0.5L+eps||x>=(LD)ones(bl)+0.5L-eps))return bad("encode_binary(%.17g) scale %d ref %d bits %u refused: %s",d,k,ref,bl,e.c_str()); return 0;}
    if(r>ones(bl)||fabsl(x-r)>0.5L+eps)return bad("encode_binary(%.17g) scale %d ref %d bits %u = %u expected %.3Lf",d,k,ref,bl,r,x);
    return 0;}
static int t_decbin(int k,int ref,unsigned bl,uint32_t raw){
    if(k<-24||k>24)return 2;
    _Varinfo i=mk(k,WR_VAR(0,12,101),ref,bl);double d=0;std::string e=outcome([&]{d=i.decode_binary(raw);});
    if(!bl)return e=="error_consistency"?0:bad("decode_binary without bits: '%s'",e.c_str());
    LD w=val((LD)raw+ref,k);if(e!=""||!(fabsl(d-w)<=(abs(k)<=22?1.2e-16L:3.5e-16L)*fabsl(w)))return bad("decode_binary(%u) scale %d ref %d = %.20g %s",raw,k,ref,d,e.c_str());
    return 0;}
static int t_append(int k,int ref,unsigned bl,int isset,int n){
    if(k<-24||k>24||bl<1||bl>32||isset>1)return 2;
    _Varinfo i=mk(k,WR_VAR(0,12,101),ref,bl);Var v(&i);v.m_isset=isset;v.m_value.i=n;
    std::string o;BufrOutput b(o);std::string e=outcome([&]{b.append_var(&i,v);});
    long long x=(long long)n-ref;bool fits=x>=0&&x<=(long long)ones(bl);
    if(isset&&!fits){if(e!="error_consistency"||o.size()||b.pbyte_len)return bad("append_var(%d) ref %d bits %u scale %d does not fit: '%s' wrote %s",n,ref,bl,k,e.c_str(),hex(o).c_str());return 0;}
    if(e!="")return bad("append_var(%d) ref %d bits %u scale %d: %s",n,ref,bl,k,e.c_str());
    unsigned nb=o.size()*8+b.pbyte_len;b.flush();uint64_t w=isset?(uint64_t)x:ones(bl);uint64_t g=0;for(unsigned q=0;q<o.size()*8&&q<bl;++q)g=(g<<1)|(((unsigned char)o[q/8]>>(7-q%8))&1);
    if(nb!=bl||g!=w)return bad("append_var(%s %d) ref %d bits %u scale %d wrote %u bits %llx expected %llx",isset?"set":"unset",n,ref,bl,k,nb,(unsigned long long)g,(unsigned long long)w);
    return 0;}
static std::string packbits(std::vector<std::pair<uint64_t,unsigned>> v){std::string o;BufrOutput b(o);for(auto&x:v)b.add_bits((uint32_t)x.first,x.second);b.flush();o+=std::string(4,'\0');return o;}
static int judge(const char*w,const _Varinfo&i,Var&v,const std::string&e,bool missing,long long x,int s,int c){
    if(missing){if(e!=""||v.isset())return bad("%s: missing value decoded as set=%d %s",w,v.isset(),e.c_str());return 0;}
    bool in=x>=i.imin&&x<=i.imax;
    if(in){if(e!=""||!v.isset()||v.m_value.i!=x)return bad("%s: expected %lld got set=%d %d %s (scale %d ref %d bits %u range [%d,%d])",w,x,v.isset(),v.m_value.i,e.c_str(),i.scale,i.bit_ref,i.bit_len,i.imin,i.imax);return 0;}
    if(s)return e==""&&!v.isset()?0:bad("%s: out of domain %lld silent: set=%d %s",w,x,v.isset(),e.c_str());
    if(c)return e==""&&v.isset()&&v.m_value.i==(x<i.imin?i.imin:i.imax)?0:bad("%s: out of domain %lld clamped to %d %s",w,x,v.m_value.i,e.c_str());
    return e=="error_domain"&&!v.isset()?0:bad("%s: out of domain %lld: set=%d '%s'",w,x,v.isset(),e.c_str());}
static int t_decnum(int k,unsigned code,int ref,unsigned bl,int lo,int hi,uint32_t raw,int hook,int s,int c){
    if(k<-24||k>24||bl<1||bl>32||lo>hi||hook||s>1||c>1||raw>ones(bl))return 2;
    _Varinfo i=mk(k,code,ref,bl,lo,hi);Var v(&i);v.m_isset=true;v.m_value.i=lo;std::string m=packbits({{raw,bl}});bufr::Input in(m);in.fname="x";
    O o(s,c);std::string e=outcome([&]{in.decode_number(v);});
    if(8u*in.s4_cursor-in.pbyte_len!=bl)return bad("decode_number read %u bits of %u",8u*in.s4_cursor-in.pbyte_len,bl);
    unsigned y=code&255;bool never=((code>>8)&0x3f)==31&&(code>>14)==0&&(y<3||y==11||y==12);
    return judge("decode_number",i,v,e,raw==ones(bl)&&!never,(long long)raw+ref,s,c);}
static int t_deccomp(int k,unsigned code,int ref,unsigned bl,int lo,int hi,uint32_t base,unsigned db,uint32_t diff,int s,int c){
    if(k<-24||k>24||bl<1||bl>32||lo>hi||s>1||c>1||db<1||db>32||diff>ones(db)||(uint64_t)base+diff>0xffffffffull)return 2;
    _Varinfo i=mk(k,code,ref,bl,lo,hi);Var v(&i);v.m_isset=true;v.m_value.i=lo;std::string m=packbits({{diff,db}});bufr::Input in(m);in.fname="x";
    O o(s,c);std::string e=outcome([&]{in.decode_compressed_number(v,base,db);});
    if(8u*in.s4_cursor-in.pbyte_len!=db)return bad("decode_compressed_number read %u bits of %u",8u*in.s4_cursor-in.pbyte_len,db);
    return judge("decode_compressed_number",i,v,e,base==ones(bl)||diff==ones(db)||(uint64_t)base+diff==ones(bl),(long long)base+diff+ref,s,c);}
static int t_base(unsigned bl,uint32_t base,unsigned db){
    if(bl<1||bl>32||db>63||base>ones(bl))return 2;
    _Varinfo i=mk(0,WR_VAR(0,12,101),0,bl);std::string m=packbits({{base,bl},{db,6}});bufr::Input in(m);in.fname="x";uint32_t b=1,d=1;bool r=false;
    std::string e=outcome([&]{r=in.decode_compressed_base(&i,b,d);});bool miss=base==ones(bl);
    if(miss&&db)return e=="error_consistency"?0:bad("missing base with %u difference bits: '%s'",db,e.c_str());
    if(e!=""||b!=base||d!=db||r!=miss)return bad("decode_compressed_base bits %u: base %u/%u diffbits %u/%u missing %d %s",bl,b,base,d,db,r,e.c_str());
    return 0;}
static int t_sem(int k,unsigned code,int ref,unsigned bl,int lo,int hi,uint32_t raw,unsigned db,int s,int c){
    if(k<-24||k>24||bl<1||bl>32||lo>hi||s>1||c>1||raw>ones(bl)||db>63)return 2;
    _Varinfo i=mk(k,code,ref,bl,lo,hi);Var v(&i);v.m_isset=true;v.m_value.i=lo;std::string m=packbits({{raw,bl},{db,6}});bufr::Input in(m);in.fname="x";
    O o(s,c);std::string e=outcome([&]{in.decode_compressed_semantic_number(v,3);});
    if(db)return e=="error_consistency"?0:bad("semantic number with differences: '%s'",e.c_str());
    if(8u*in.s4_cursor-in.pbyte_len!=bl+6)return bad("semantic number read %u bits of %u",8u*in.s4_cursor-in.pbyte_len,bl+6);
    return judge("decode_compressed_semantic_number",i,v,e,raw==ones(bl),(long long)raw+ref,s,c);}
static int S(const std::string&s){return atoi(s.c_str());}
CMD(encode_binary){return t_encbin(S(a[0]),(int)U(a[1]),U(a[2]),strtod(a[3].c_str(),0));}
CMD(decode_binary){return t_decbin(S(a[0]),(int)U(a[1]),U(a[2]),U(a[3]));}
CMD(append_num){return t_append(S(a[0]),(int)U(a[1]),U(a[2]),U(a[3]),(int)U(a[4]));}
CMD(decode_number){return t_decnum(S(a[0]),U(a[1]),(int)U(a[2]),U(a[3]),(int)U(a[4]),(int)U(a[5]),U(a[6]),U(a[7]),U(a[8]),U(a[9]));}
CMD(decode_semantic){return t_sem(S(a[0]),U(a[1]),(int)U(a[2]),U(a[3]),(int)U(a[4]),(int)U(a[5]),U(a[6]),U(a[7]),U(a[8]),U(a[9]));}
CMD(decode_compressed){return t_deccomp(S(a[0]),U(a[1]),(int)U(a[2]),U(a[3]),(int)U(a[4]),(int)U(a[5]),U(a[6]),U(a[7]),U(a[8]),U(a[9]),U(a[10]));}
CMD(decode_base){return t_base(U(a[0]),U(a[1]),U(a[2]));}
static int rn(std::mt19937&R){switch(R()%5){case 0:return (int)R();case 1:return (int)(R()%2001)-1000;case 2:return (int)(R()%5)-2;case 3:return R()%2?INT_MAX-(int)(R()%3):INT_MIN+(int)(R()%3);default:return (int)(R()>>(R()%31))*(R()%2?1:-1);}}
static uint32_t rraw(std::mt19937&R,unsigned bl){uint64_t o=ones(bl);switch(R()%4){case 0:return (uint32_t)o;case 1:return (uint32_t)(o-R()%2);case 2:return (uint32_t)(R()&o);default:return (uint32_t)((R()>>(R()%32))&o);}}
SEARCH(packing){for(int q=0;q<400000;++q){int k=(int)(R()%49)-24;if(R()%3==0)k=0;unsigned bl=1+R()%32;int ref=R()%3?rn(R):0;int lo=R()%2?INT_MIN:rn(R),hi=R()%2?INT_MAX:rn(R);if(lo>hi)std::swap(lo,hi);
    unsigned code=R()%3?WR_VAR(0,R()%64,R()%256):WR_VAR(0,31,R()%14);if(R()%16==0)code|=(R()%4)<<14;int s=R()%4==0,c=R()%3==0;int r=0;
    switch(R()%8){
    case 0:{LD x=(R()%2?(LD)rraw(R,bl):(LD)rn(R))+ref+((int)(R()%9)-4)*0.1L;r=t_encbin(k,ref,R()%20?bl:0,(double)val(x,k));break;}
    case 1:r=t_decbin(k,ref,R()%20?bl:0,R());break;
    case 2:r=t_append(k,ref,bl,R()%5!=0,R()%2?rn(R):(int)((long long)rraw(R,bl)+ref));break;
    case 3:r=t_decnum(k,code,ref,bl,lo,hi,rraw(R,bl),0,s,c);break;
    case 4:{unsigned db=1+R()%bl;r=t_deccomp(k,code,ref,bl,lo,hi,rraw(R,bl),db,rraw(R,db),s,c);break;}
    case 5:r=t_base(bl,rraw(R,bl),R()%3?R()%64:0);break;
    case 6:r=t_sem(k,code,ref,bl,lo,hi,rraw(R,bl),R()%8?0:R()%64,s,c);break;
    default:{ // whole trip
        _Varinfo i=mk(k,code&0x3fff,ref,bl);i.len=R()%11;i.compute_range();if(i.imin>i.imax)break;if(i.len>=10)break;
        int n=(int)(i.imin+(long long)((R()/4294967296.0)*((double)i.imax-i.imin+1)));if(R()%3==0)n=R()%2?i.imin:i.imax;n=std::max(i.imin,std::min(i.imax,n));
        Var v(&i);v.seti(n);std::string o;BufrOutput b(o);std::string e=outcome([&]{b.append_var(&i,v);});if(e!=""){r=bad("cannot encode %d in [%d,%d]: %s",n,i.imin,i.imax,e.c_str());break;}
        b.flush();bufr::Input in(o);in.fname="x";Var w(&i);in.decode_number(w);
        unsigned y=code&255;bool never=((code>>8)&0x3f)==31&&(y<3||y==11||y==12);
        if(((code>>8)&0x3f)==31&&!never&&(long long)n-ref==(long long)ones(bl))break;
        if(!w.isset()||w.enqi()!=n||!(w==v)||w.enqd()!=v.enqd())r=bad("%d does not survive packing: set %d (scale %d ref %d bits %u len %u)",n,w.isset(),k,ref,bl,i.len);
        // through doubles
        Var z(&i);z.setd(v.enqd());if(z.enqi()!=n)r=bad("setd(enqd(%d)) = %d scale %d",n,z.enqi(),k);
        }}
    if(r==1)return 1;}
    return 0;}
