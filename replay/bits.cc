#include "h.h"
#include <chrono>
using namespace wreport; using buffers::BufrOutput;
static void low(Bits&b,uint64_t v,int n){for(int i=n-1;i>=0;--i)b.push_back((v>>i)&1);}
static Bits outbits(const std::string&o,const BufrOutput&b){Bits r;for(unsigned char c:o)low(r,c,8);low(r,b.pbyte,b.pbyte_len);return r;}
static std::string show(const Bits&b){std::string s;for(int x:b)s+=x?'1':'0';return s;}
// drive a real BufrOutput into the given pending state
static void prep(BufrOutput&b,int pl,unsigned pb,Bits&exp,const std::string&o){b.pbyte=pb;b.pbyte_len=pl;for(unsigned char c:o)low(exp,c,8);low(exp,pb,pl);}
static int cmp(const char*w,const Bits&g,const Bits&e){if(g==e)return 0;return bad("%s wrote %s expected %s",w,show(g).c_str(),show(e).c_str());}
static int t_add(int pl,unsigned pb,uint32_t v,int n){
    if(n<0||n>32||pl<0||pl>7||pb>255)return 2;
    std::string o("xy");BufrOutput b(o);Bits e;prep(b,pl,pb,e,o);low(e,v,n);b.add_bits(v,n);
    if(b.pbyte_len<0||b.pbyte_len>7)return bad("pending length %d",b.pbyte_len);
    return cmp("add_bits",outbits(o,b),e);}
static int t_flush(int pl,unsigned pb){
    if(pl<0||pl>7||pb>255)return 2;
    std::string o("xy");BufrOutput b(o);Bits e;prep(b,pl,pb,e,o);while(e.size()%8)e.push_back(0);b.flush();
    if(b.pbyte_len!=0)return bad("flush leaves %d bits",b.pbyte_len);
    return cmp("flush",outbits(o,b),e);}
static int t_fixed(int w,int pl,unsigned pb,unsigned v){
    if(pl<0||pl>7||pb>255)return 2;
    std::string o;BufrOutput b(o);Bits e;prep(b,pl,pb,e,o);low(e,v,w);if(w==16)b.append_short(v);else b.append_byte(v);
    return cmp("append_short/byte",outbits(o,b),e);}
static int t_missing(unsigned n){
    if(n>(1u<<24))return 2;
    std::string o;BufrOutput b(o);Bits e(n,1);b.append_missing(n);return cmp("append_missing",outbits(o,b),e);}
static int t_string(unsigned n,const std::string&s0){
    if(n>(1u<<24))return 2;
    std::string s(s0.c_str());
    char*p=(char*)malloc(s.size()+1);strcpy(p,s.c_str());
    std::string o;BufrOutput b(o);Bits e;
    for(unsigned i=0;i<n/8;++i)low(e,i<s.size()?(unsigned char)s[i]:' ',8);
    low(e,0,n%8);
    b.append_string((const char*)p,n);free(p);return cmp("append_string",outbits(o,b),e);}
static int t_binary(unsigned n,const std::string&s){
    if(n>(1u<<24)||s.size()<(n+7)/8)return 2;
    unsigned k=(n+7)/8;unsigned char*p=(unsigned char*)malloc(k?k:1);memcpy(p,s.data(),k);
    std::string o;BufrOutput b(o);Bits e;for(unsigned i=0;i<n/8;++i)low(e,p[i],8);if(n%8)low(e,p[n/8],n%8);
    b.append_binary(p,n);free(p);return cmp("append_binary",outbits(o,b),e);}
static int t_get(bool skip,unsigned n,int pl,uint32_t cur,uint64_t L,const std::string&D0){
    if((!skip&&n>32)||pl<0||pl>7||L>D0.size()||(pl&&(cur==0||cur>L)))return 2;
    char*p=(char*)malloc(L?L:1);memcpy(p,D0.data(),L);
    std::string dummy;bufr::Input in(dummy);in.data=(const unsigned char*)p;in.data_len=L;in.s4_cursor=cur;in.pbyte_len=pl;in.fname="x";
    if(pl)in.pbyte=(unsigned char)p[cur-1]<<(8-pl);
    uint64_t pos=8ull*cur-pl;bool enough=cur<=L&&pos+n<=8*L;
    uint64_t want=0;if(enough)for(unsigned i=0;i<n;++i){uint64_t q=pos+i;want=(want<<1)|(((unsigned char)p[q/8]>>(7-q%8))&1);}
    uint32_t got=0;std::string ex=outcome([&]{if(skip)in.skip_bits(n);else got=in.get_bits(n);});
    int r=0;
    if(!enough){if(ex!="error_parse")r=bad("%u bits past the end: outcome '%s'",n,ex.c_str());}
    else if(ex!="")r=bad("get/skip %u bits at bit %llu of %llu bytes throws %s",n,(unsigned long long)pos,(unsigned long long)L,ex.c_str());
    else{
        if(!skip&&got!=(uint32_t)want)r=bad("get_bits(%u) at bit %llu = %x expected %x",n,(unsigned long long)pos,got,(uint32_t)want);
        else if(8ull*in.s4_cursor-in.pbyte_len!=pos+n)r=bad("position after %u bits is %lld, expected %llu",n,(long long)(8ll*in.s4_cursor-in.pbyte_len),(unsigned long long)(pos+n));
        else if(in.pbyte_len<0||in.pbyte_len>8)r=bad("pending %d",in.pbyte_len);
        else if(enough&&pos+n+1<=8*L){uint32_t nb=in.get_bits(1);uint64_t q=pos+n;if(nb!=(((unsigned char)p[q/8]>>(7-q%8))&1u))r=bad("bit following %u bits at %llu is wrong",n,(unsigned long long)pos);}
    }
    free(p);return r;}
CMD(add_bits){return t_add(U(a[0]),U(a[1]),U(a[2]),U(a[3]));}
CMD(flush){return t_flush(U(a[0]),U(a[1]));}
CMD(append_fixed){return t_fixed(U(a[0]),U(a[1]),U(a[2]),U(a[3]));}
CMD(append_missing){return t_missing(U(a[0]));}
CMD(append_string){return t_string(U(a[0]),unhex(a[1]));}
CMD(append_binary){return t_binary(U(a[0]),unhex(a[1]));}
CMD(get_bits){std::string d=unhex(a[4]);return t_get(false,U(a[0]),U(a[1]),U(a[2]),U(a[3]),d);}
CMD(skip_bits){std::string d=unhex(a[4]);return t_get(true,U(a[0]),U(a[1]),U(a[2]),U(a[3]),d);}
SEARCH(add_bits){for(int n=0;n<=32;++n)for(int pl=0;pl<8;++pl)for(int k=0;k<40;++k){uint32_t v=k<2?(k?~0u:0):(k<34?1u<<(k-2):R());if(t_add(pl,R()%(1u<<pl),v,n)==1)return 1;if(t_flush(pl,R()%(1u<<pl))==1)return 1;}return 0;}
SEARCH(append_fixed){for(int k=0;k<70000;++k)for(int w=8;w<=16;w+=8){int pl=R()%8;if(t_fixed(w,pl,R()%(1u<<pl),w==8?k&255:k&65535)==1)return 1;}return 0;}
SEARCH(append_missing){for(unsigned n=0;n<5000;++n)if(t_missing(n)==1)return 1;for(unsigned n:{65535u,65536u,70001u,1u<<20})if(t_missing(n)==1)return 1;return 0;}
SEARCH(append_string){for(unsigned n=0;n<600;++n)for(int k=0;k<40;++k){std::string s;unsigned l=k<20?R()%(n/8+4):R()%12;for(unsigned i=0;i<l;++i)s+=(char)(R()%4?1+R()%255:" \xff\x7f\x80"[R()%4]);if(t_string(n,s)==1)return 1;}
 for(unsigned n:{2048u,65536u,524288u,2096u}){std::string s(n/8,'q');for(int d:{-1,0,1}){std::string t=s;if(d<0)t.pop_back();if(d>0)t+='z';if(t_string(n,t)==1)return 1;}}return 0;}
SEARCH(append_binary){for(unsigned n=0;n<600;++n)for(int k=0;k<30;++k){std::string s;for(unsigned i=0;i<n/8+1;++i)s+=(char)(k==0?255:k==1?0:R());if(t_binary(n,s)==1)return 1;}
 for(unsigned n:{2049u,65537u,524291u}){std::string s;for(unsigned i=0;i<n/8+1;++i)s+=(char)R();if(t_binary(n,s)==1)return 1;}return 0;}
static int srch_get(std::mt19937&R,bool skip){
 for(int it=0;it<400000;++it){unsigned L=R()%12;if(it%500==0)L=200+R()%2000;std::string d;int m=R()%3;for(unsigned i=0;i<L;++i)d+=(char)(m==0?R():m==1?255:0);
  unsigned cur=R()%(L+3);int pl=cur&&cur<=L?R()%8:0;unsigned n=skip?R()%(8*L+10):R()%33;if(it%3==0){uint64_t left=cur<=L?(L-cur)*8+pl:0;n=(unsigned)(left+R()%4);if(n)n-=1;if(!skip&&n>32)n=R()%33;}
  if(t_get(skip,n,pl,cur,L,d)==1)return 1;}
 return 0;}
SEARCH(get_bits){return srch_get(R,false);}
SEARCH(skip_bits){return srch_get(R,true);}
