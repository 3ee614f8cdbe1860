#include "h.h"
#include <climits>
using namespace wreport;
typedef long double LD;
struct Hook: options::DomainErrorHook { int n=0; bool isint=false; int32_t iv=0; double dv=0;
    void handle_domain_error_int(Var&,int32_t v) override {++n;isint=true;iv=v;}
    void handle_domain_error_double(Var&,double v) override {++n;dv=v;} };
struct Opt { Hook h; Opt(int hook,int s,int c){options::var_silent_domain_errors=s;options::var_clamp_domain_errors=c;options::var_hook_domain_errors=hook?&h:nullptr;}
    ~Opt(){options::var_silent_domain_errors=false;options::var_clamp_domain_errors=false;options::var_hook_domain_errors=nullptr;} };
static LD p10(int k){LD r=1;for(int i=0;i<(k<0?-k:k);++i)r*=10;return r;}
static LD val(LD n,int scale){return scale>=0?n/p10(scale):n*p10(scale);}
static LD unval(LD d,int scale){return scale>=0?d*p10(scale):d/p10(scale);}
_Varinfo mkinfo(int type,int scale,int imin,int imax){
    _Varinfo i;memset(&i,0,sizeof i);i.code=WR_VAR(0,12,101);i.type=(Vartype)type;strcpy(i.desc,"TEST");strcpy(i.unit,"K");i.scale=scale;i.len=9;i.bit_ref=0;i.bit_len=30;
    i.imin=imin;i.imax=imax;i.dmin=(double)val(imin,scale);i.dmax=(double)val(imax,scale);return i;}
static Var* mkvar(const _Varinfo*i,int isset,int v){Var*r=new Var(i);r->m_isset=isset;r->m_value.i=v;return r;}
// kind of the expected result: 0 in domain, 1 above, -1 below, 2 nan
static int judge(const char*what,Var&v,const std::string&exc,Opt&o,int hook,int s,int c,int kind,std::function<bool(int)> ok,int is0,int i0){
    const _Varinfo*inf=v.info();
    if(kind==0){
        if(exc!="")return bad("%s: %s for a value in the domain",what,exc.c_str());
        if(!v.isset()||o.h.n)return bad("%s: value in the domain not stored (set %d hook %d)",what,v.isset(),o.h.n);
        if(!ok(v.m_value.i))return bad("%s: stored %d",what,v.m_value.i);
    }else if(s){ if(exc!=""||v.isset()||o.h.n)return bad("%s: silent policy: exc=%s set=%d hook=%d",what,exc.c_str(),v.isset(),o.h.n);
    }else if(c&&kind!=2){ int w=kind>0?inf->imax:inf->imin;
        if(exc!=""||!v.isset()||o.h.n||v.m_value.i!=w)return bad("%s: clamp policy: exc=%s set=%d val=%d expected %d",what,exc.c_str(),v.isset(),v.m_value.i,w);
    }else if(hook){ if(exc!=""||o.h.n!=1||v.m_isset!=(bool)is0||(v.m_isset&&v.m_value.i!=i0))return bad("%s: hook policy: exc=%s calls=%d",what,exc.c_str(),o.h.n);
    }else { if(exc!="error_domain"||v.isset())return bad("%s: default policy: exc=%s set=%d",what,exc.c_str(),v.isset()); }
    if(v.isset()&&!o.h.n&&(v.m_value.i<inf->imin||v.m_value.i>inf->imax))return bad("%s: stored %d outside [%d,%d]",what,v.m_value.i,inf->imin,inf->imax);
    return 0;
}
static int t_seti(int type,int hook,int s,int c,int imin,int imax,int is0,int i0,int x){
    if(s<0||s>1||c<0||c>1||imin>imax||is0>1)return 2;
    _Varinfo inf=mkinfo(type,type==0?0:1,imin,imax);std::unique_ptr<Var> v(mkvar(&inf,type<2?is0:0,type<2?i0:0));if(type>=2)v->m_value.c=nullptr;
    Opt o(hook,s,c);std::string e=outcome([&]{v->seti(x);});
    if(type>=2)return e=="error_type"?0:bad("seti on text: %s",e.c_str());
    return judge("seti",*v,e,o,hook,s,c,x<imin?-1:x>imax?1:0,[&](int i){return i==x;},is0,i0);
}
static int dkind(const _Varinfo&inf,double d){
    if(std::isnan(d))return 2;
    if(inf.type==Vartype::Integer){ double r=std::round(d);return r<inf.imin?-1:r>inf.imax?1:0; }
    return d<inf.dmin?-1:d>inf.dmax?1:0;
}
static int t_setd(const char*how,int type,int scale,int hook,int s,int c,int imin,int imax,int is0,int i0,double d,std::function<void(Var&)> f){
    if(s<0||s>1||c<0||c>1||imin>imax||is0>1)return 2;
    _Varinfo inf=mkinfo(type,scale,imin,imax);std::unique_ptr<Var> v(mkvar(&inf,type<2?is0:0,type<2?i0:0));if(type>=2)v->m_value.c=nullptr;
    Opt o(hook,s,c);std::string e=outcome([&]{f(*v);});
    if(type>=2)return e=="error_type"?0:bad("setd on text: %s",e.c_str());
    return judge(how,*v,e,o,hook,s,c,dkind(inf,d),[&](int i){LD x=type==0?(LD)d:unval(d,scale);LD df=x-i;if(type==0)return i==std::round(d);return df<=0.5L+1e-6L&&df>=-0.5L-1e-6L;},is0,i0);
}
static double D(const std::string&s){return strtod(s.c_str(),0);}
CMD(var_seti){return t_seti(U(a[0]),U(a[1]),U(a[2]),U(a[3]),(int)U(a[4]),(int)U(a[5]),U(a[6]),(int)U(a[7]),(int)U(a[8]));}
CMD(var_setd){double d=D(a[9]);return t_setd("setd",U(a[0]),atoi(a[1].c_str()),U(a[2]),U(a[3]),U(a[4]),(int)U(a[5]),(int)U(a[6]),U(a[7]),(int)U(a[8]),d,[&](Var&v){v.setd(d);});}
static std::string dtxt(double d){char b[64];snprintf(b,64,"%.17g",d);return b;}
CMD(var_setf){double d=D(a[9]);std::string t=dtxt(d);return t_setd("setf",U(a[0]),atoi(a[1].c_str()),U(a[2]),U(a[3]),U(a[4]),(int)U(a[5]),(int)U(a[6]),U(a[7]),(int)U(a[8]),d,[&](Var&v){v.setf(t.c_str());});}
static int rint_(std::mt19937&R){switch(R()%6){case 0:return (int)R();case 1:return (int)(R()%2001)-1000;case 2:return (int)(R()%5)-2;case 3:return INT_MAX-(int)(R()%3);case 4:return INT_MIN+(int)(R()%3);default:return (int)(R()>>(R()%31));}}
static void rrange(std::mt19937&R,int&lo,int&hi){lo=rint_(R);hi=rint_(R);if(lo>hi)std::swap(lo,hi);}
static double rdbl(std::mt19937&R,int scale,int lo,int hi){
    switch(R()%10){case 0:return NAN;case 1:return INFINITY;case 2:return -INFINITY;case 3:return (R()%2?1:-1)*std::pow(10,(int)(R()%40)-5)*(R()%1000)/100.0;
    default: {LD b=R()%2?(R()%2?lo:hi):(LD)lo+(LD)(R()/4294967296.0L)*((LD)hi-lo);b+=((int)(R()%41)-20)*0.1L;return (double)val(b,scale);} } }
SEARCH(var_num){for(int k=0;k<400000;++k){int type=R()%8==0?2+R()%2:R()%2;int scale=type==1?(int)(R()%49)-24:0;if(type==1&&!scale)scale=2;int lo,hi;rrange(R,lo,hi);int h=R()%2,s=R()%3==0,c=R()%2,is0=R()%2,i0=rint_(R);int r;
    if(R()%3==0){int x=R()%2?rint_(R):(R()%2?lo:hi)+(int)(R()%3)-1;r=t_seti(type,h,s,c,lo,hi,is0,i0,x);}
    else{double d=rdbl(R,scale,lo,hi);if(R()%2||type>=2)r=t_setd("setd",type,scale,h,s,c,lo,hi,is0,i0,d,[&](Var&v){v.setd(d);});else{std::string t=dtxt(d);r=t_setd("setf",type,scale,h,s,c,lo,hi,is0,i0,d,[&](Var&v){v.setf(t.c_str());});}}
    if(r==1){printf("case type=%d scale=%d range=[%d,%d] hook=%d silent=%d clamp=%d\n",type,scale,lo,hi,h,s,c);return 1;}}
    // empty and null text
    for(int k=0;k<4;++k){_Varinfo inf=mkinfo(k%2,k%2,-5,5);Var v(&inf,3);if(k<2)v.setf("");else v.setf(nullptr);if(v.isset())return bad("setf of empty text leaves a value");}
    return 0;}
// text
static int t_setc(int type,int scale,int hook,int s,int c,int imin,int imax,int is0,int i0,const std::string&t0,bool str){
    if(s<0||s>1||c<0||c>1||imin>imax||is0>1||type>1)return 2;
    std::string t(t0.c_str());
    _Varinfo inf=mkinfo(type,scale,imin,imax);std::unique_ptr<Var> v(mkvar(&inf,is0,i0));
    size_t st=t.size()&&t[0]=='-'?1:0;if(t.size()==st)return 0;
    bool num=true;LD x=0;for(size_t i=st;i<t.size();++i){if(t[i]<'0'||t[i]>'9')num=false;else if(x<1e15L)x=x*10+(t[i]-'0');}
    if(st)x=-x;
    Opt o(hook,s,c);std::string e;
    if(str)e=outcome([&]{v->sets(t);});else e=outcome([&]{v->setc(t.c_str());});
    if(!num)return e==""&&!v->isset()&&!o.h.n?0:bad("text '%s' that is not a number: exc=%s set=%d",t.c_str(),e.c_str(),v->isset());
    int r=judge("setc",*v,e,o,hook,s,c,x<imin?-1:x>imax?1:0,[&](int i){return (LD)i==x;},is0,i0);
    if(r)printf("text '%s' range [%d,%d]\n",t.c_str(),imin,imax);
    return r;
}
CMD(var_setc){int r=0;for(int k=0;k<2&&r!=1;++k)r=t_setc(U(a[0]),atoi(a[1].c_str()),U(a[2]),U(a[3]),U(a[4]),(int)U(a[5]),(int)U(a[6]),U(a[7]),(int)U(a[8]),unhex(a[9]),k);return r;}
SEARCH(var_setc){for(int k=0;k<300000;++k){int lo,hi;rrange(R,lo,hi);int type=R()%2,scale=type?(int)(R()%7)-3:0;if(type&&!scale)scale=1;std::string t;
    switch(R()%4){case 0:t=std::to_string((long long)(R()%2?lo:hi)+(int)(R()%3)-1);break;
    case 1:t=std::to_string((long long)rint_(R));break;
    case 2:{int n=R()%24;if(R()%3==0)t="-";for(int i=0;i<n;++i)t+=(char)('0'+R()%10);break;}
    default:{int n=R()%12;if(R()%3==0)t="-";for(int i=0;i<n;++i)t+=R()%6?(char)('0'+R()%10):(char)(1+R()%255);}}
    int r=t_setc(type,scale,R()%2,R()%3==0,R()%2,lo,hi,R()%2,rint_(R),t,R()%2);if(r==1)return 1;}
    return 0;}
SEARCH(var_setval){for(int k=0;k<200000;++k){int lo,hi,l2,h2;rrange(R,lo,hi);rrange(R,l2,h2);int ts=R()%2,td=R()%2;int ks=ts?(int)(R()%7)-3:0,kd=td?(int)(R()%7)-3:0;if(ts&&!ks)ks=2;if(td&&!kd)kd=1;
    _Varinfo a=mkinfo(ts,ks,l2,h2),b=mkinfo(td,kd,lo,hi);
    int n=R()%3?(int)std::min<long long>(h2,std::max<long long>(l2,(long long)val(R()%2?lo:hi,kd-ks)+(int)(R()%5)-2)):rint_(R);
    std::unique_ptr<Var> s(mkvar(&a,R()%8!=0,n)),v(mkvar(&b,R()%2,rint_(R)));
    int is0=v->m_isset,i0=v->m_value.i,h=R()%2,si=R()%3==0,c=R()%2;Opt o(h,si,c);std::string e=outcome([&]{v->setval(*s);});
    if(!s->isset()){if(e!=""||v->isset())return bad("setval from unset: %s set=%d",e.c_str(),v->isset());continue;}
    double d=(double)val(n,ks);
    int r=judge("setval",*v,e,o,h,si,c,dkind(b,d),[&](int i){LD x=td==0?(LD)d:unval(d,kd);LD df=x-i;return df<=0.5L+1e-6L&&df>=-0.5L-1e-6L;},is0,i0);
    if(r){printf("source %d scale %d -> scale %d range [%d,%d]\n",n,ks,kd,lo,hi);return 1;}}
    return 0;}
static int t_range(int type,unsigned code,unsigned len,int ref,unsigned bl,int scale){
    if(type>1||scale<-24||scale>24||bl>(1u<<20))return 2;
    _Varinfo i=mkinfo(type,scale,0,0);i.code=code;i.len=len;i.bit_ref=ref;i.bit_len=bl;i.compute_range();
    long long lo,hi;
    if(len>=10){lo=INT_MIN;hi=INT_MAX;}
    else{long long p=1;for(unsigned k=0;k<len;++k)p*=10;lo=-(p-1);hi=p-2;
        if(bl){long long bm=bl<48?(1ll<<bl)+ref-(((code>>8)&0x3f)==31?1:2):LLONG_MAX;lo=std::max<long long>(lo,ref);hi=std::min(hi,bm);}}
    if(i.imin!=lo||i.imax!=hi)return bad("compute_range(code %04x len %u ref %d bits %u) = [%d,%d] expected [%lld,%lld]",code,len,ref,bl,i.imin,i.imax,lo,hi);
    if(i.len!=len||i.bit_ref!=ref||i.bit_len!=bl||i.code!=code)return bad("compute_range changes other fields");
    LD e=1e-15L;
    if(fabsl(i.dmin-val(lo,scale))>e*fabsl(val(lo,scale))||fabsl(i.dmax-val(hi,scale))>e*fabsl(val(hi,scale)))return bad("dmin/dmax %g %g for [%lld,%lld] scale %d",i.dmin,i.dmax,lo,hi,scale);
    return 0;}
CMD(compute_range){return t_range(U(a[0]),U(a[1]),U(a[2]),(int)U(a[3]),U(a[4]),(int)U(a[5]));}
SEARCH(compute_range){for(int k=0;k<200000;++k){int t=R()%2;int r=t_range(t,(R()%4?(R()&0x3f):31)<<8|(R()&255),R()%12,rint_(R),R()%70,t?(int)(R()%49)-24:0);if(r==1)return 1;}return 0;}
static int t_dec(int scale,int n){
    if(scale<-24||scale>24)return 2;
    _Varinfo i=mkinfo(scale?1:0,scale,INT_MIN,INT_MAX);double d=i.decode_decimal(n);LD w=val(n,scale);
    if(!(fabsl(d-w)<=(abs(scale)<=22?1.2e-16L:3.5e-16L)*fabsl(w)))return bad("decode_decimal(%d) scale %d = %.20g",n,scale,d);
    if(i.encode_decimal(d)!=n)return bad("encode_decimal(decode_decimal(%d)) = %d (scale %d)",n,i.encode_decimal(d),scale);
    return 0;}
CMD(decode_decimal){return t_dec(atoi(a[0].c_str()),(int)U(a[1]));}
SEARCH(decimal){for(int k=0;k<300000;++k){int r=t_dec((int)(R()%49)-24,rint_(R));if(r==1)return 1;}return 0;}

SEARCH(var_ctor){for(int k=0;k<200000;++k){int type=R()%2;int scale=type?(int)(R()%49)-24:0;if(type&&!scale)scale=2;int lo,hi;rrange(R,lo,hi);int h=R()%2,s=R()%3==0,c=R()%2;
    _Varinfo inf=mkinfo(type,scale,lo,hi);Opt o(h,s,c);std::unique_ptr<Var> v;int r=0;
    if(R()%2){int x=R()%2?rint_(R):(R()%2?lo:hi)+(int)(R()%3)-1;std::string e=outcome([&]{v.reset(new Var(&inf,x));});
        if(!v.get()){if(e!="error_domain"||!(x<lo||x>hi)||s||c||h)return bad("Var(info,%d) in [%d,%d]: %s",x,lo,hi,e.c_str());continue;}
        r=judge("Var(info,int)",*v,e,o,h,s,c,x<lo?-1:x>hi?1:0,[&](int i){return i==x;},0,0);
    }else{double d=rdbl(R,scale,lo,hi);std::string e=outcome([&]{v.reset(new Var(&inf,d));});int kd=dkind(inf,d);
        if(!v.get()){if(e!="error_domain"||!kd||s||(c&&kd!=2)||h)return bad("Var(info,%g) in [%g,%g]: %s",d,inf.dmin,inf.dmax,e.c_str());continue;}
        r=judge("Var(info,double)",*v,e,o,h,s,c,kd,[&](int i){LD x=type==0?(LD)d:unval(d,scale);LD df=x-i;return df<=0.5L+1e-6L&&df>=-0.5L-1e-6L;},0,0);}
    if(r==1)return 1;}
    return 0;}
