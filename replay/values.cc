// variables as values: random histories of copies, moves, assignments and attribute changes against a plain model
#include "h.h"
using namespace wreport;
struct M { const _Varinfo* i=0; bool set=false; std::string t; int n=0; std::map<unsigned,M> a; };
static std::vector<_Varinfo> infos(){std::vector<_Varinfo> v;for(int k=0;k<10;++k){_Varinfo i;memset((void*)&i,0,sizeof i);
    switch(k%5){case 0:i.set_bufr(WR_VAR(0,12,100+k),"N","K",k?1:0,5,0,20);break;case 1:i.set_bufr(WR_VAR(0,12,100+k),"N","NUMERIC",0,5,0,16);break;case 2:case 3:i.set_bufr(WR_VAR(0,1,100+k),"S","CCITT IA5",0,2+k,0,8*(2+k));break;
      default:i.set_bufr(WR_VAR(0,2,100+k),"B","CCITT IA5",0,k,0,8*k);i.type=Vartype::Binary;i.bit_len=8*k-3;i.len=k;}
    v.push_back(i);}
    v.push_back(v[0]);v.push_back(v[2]);v.back().len=17;v.back().bit_len=17*8;v.push_back(v[2]);v.back().type=Vartype::Binary; v.push_back(v[4]);v.back().len=1;v.back().bit_len=5;  // same code, other description
    return v;}
static bool num(const _Varinfo*i){return i->type==Vartype::Integer||i->type==Vartype::Decimal;}
static std::string val(const Var&v){if(!v.isset())return "";if(num(v.info()))return std::to_string(v.enqi());if(v.info()->type==Vartype::Binary)return std::string(v.enqc(),v.info()->len);return v.enqc();}
static std::string show(const M&m){std::string r=varcode_format(m.i->code)+(m.set?"="+(num(m.i)?std::to_string(m.n):hex(m.t)):"=unset");for(auto&x:m.a)r+=" ["+show(x.second)+"]";return r;}
static int same(const char*w,const Var&v,const M&m){
    if(v.info()!=m.i)return bad("%s: wrong description",w);
    if(v.isset()!=m.set)return bad("%s: set=%d expected %s",w,v.isset(),show(m).c_str());
    if(m.set&&val(v)!=(num(m.i)?std::to_string(m.n):m.t))return bad("%s: value %s expected %s",w,hex(val(v)).c_str(),show(m).c_str());
    auto it=m.a.begin();for(const Var*a=v.next_attr();a;a=a->next_attr(),++it){if(it==m.a.end())return bad("%s: too many attributes, expected %s",w,show(m).c_str());
        if(a->code()!=it->first)return bad("%s: attribute %s where %s expected",w,varcode_format(a->code()).c_str(),varcode_format(it->first).c_str());
        M x=it->second;x.a.clear();if(a->info()!=x.i||a->isset()!=x.set||(x.set&&val(*a)!=(num(x.i)?std::to_string(x.n):x.t)))return bad("%s: attribute %s expected %s",w,hex(val(*a)).c_str(),show(x).c_str());}
    if(it!=m.a.end())return bad("%s: missing attributes, expected %s",w,show(m).c_str());
    return 0;}
static bool eq(const M&a,const M&b){if(a.i->code!=b.i->code||a.set!=b.set)return false;
    if(a.set){if(num(a.i)!=num(b.i))return false;if(num(a.i)){if(a.n!=b.n)return false;}else if(a.i->type!=b.i->type||a.t!=b.t)return false;}
    if(a.a.size()!=b.a.size())return false;for(auto x=a.a.begin(),y=b.a.begin();x!=a.a.end();++x,++y)if(!eq(x->second,y->second))return false;return true;}
static void randset(std::mt19937&R,Var&v,M&m){
    if(R()%6==0){v.unset();m.set=false;return;}
    m.set=true;if(num(m.i)){m.n=R()%3?(int)(R()%3):(int)(R()%9000);v.seti(m.n);}
    else{std::string t;unsigned n=m.i->len;if(m.i->type==Vartype::String){unsigned k=R()%(n+3);for(unsigned q=0;q<k;++q)t+="ab"[R()%2];v.sets(t);m.t=t.substr(0,n);}
        else{for(unsigned q=0;q<n;++q)t+=(char)(R()%2?R():0);v.setc(t.c_str());if(m.i->bit_len%8)t[n-1]=(unsigned char)t[n-1]&((1<<(m.i->bit_len%8))-1);m.t=t;}}}
static int history(std::mt19937&R,bool attrs){
    static std::vector<_Varinfo> I=infos();
    const int N=4;std::unique_ptr<Var> v[N];M m[N];
    for(int k=0;k<N;++k){m[k].i=&I[R()%I.size()];v[k].reset(new Var(m[k].i));}
    for(int step=0;step<25;++step){int a=R()%N,b=R()%N;const char*w="";
        switch(R()%(attrs?18:12)){
        case 0:case 1:w="set";randset(R,*v[a],m[a]);break;
        case 2:w="copy constructor";v[a].reset(new Var(*v[b]));if(a!=b)m[a]=m[b];else{w="copy";}break;
        case 3:w="move constructor";if(a!=b){std::unique_ptr<Var> n(new Var(std::move(*v[b])));v[a]=std::move(n);m[a]=m[b];m[b].set=false;m[b].a.clear();}break;
        case 4:w="copy assignment";*v[a]=*v[b];m[a]=m[b];break;
        case 5:w="move assignment";*v[a]=std::move(*v[b]);if(a!=b){m[a]=m[b];m[b].set=false;m[b].a.clear();}break;
        case 6:w="new";m[a]=M();m[a].i=&I[R()%I.size()];v[a].reset(new Var(m[a].i));break;
        case 7:{w="assignment from attribute";if(!m[a].a.empty()){auto it=m[a].a.begin();std::advance(it,R()%m[a].a.size());M x=it->second;
            // the attribute carries the attributes after it
            M y=x;y.a.clear();for(auto j=std::next(it);j!=m[a].a.end();++j)y.a.insert(*j);
            const Var*p=v[a]->enqa(it->first);if(!p)return bad("enqa does not find %s",varcode_format(it->first).c_str());
            if(R()%2)*v[a]=*p;else*v[a]=std::move(*const_cast<Var*>(p));m[a]=y;}break;}
        case 8:{w="constructor from other";if(num(m[a].i)&&num(m[b].i))break;if(!num(m[b].i)&&num(m[a].i))break;
            M x;x.i=m[a].i;x.set=m[b].set;x.a=m[b].a;if(x.set){std::string t=num(m[b].i)?std::to_string(m[b].n):m[b].t;unsigned n=x.i->len;if(x.i->type==Vartype::String){t=t.substr(0,t.find('\0'));t=t.substr(0,n);}else{bool full=t.size()>=n;t.resize(n,0);if(full&&x.i->bit_len%8)t[n-1]=(unsigned char)t[n-1]&((1<<(x.i->bit_len%8))-1);}x.t=t;}
            std::unique_ptr<Var> n(new Var(x.i,*v[b]));v[a]=std::move(n);m[a]=x;break;}
        case 9:case 10:case 11:{bool e=eq(m[a],m[b]);if((*v[a]==*v[b])!=e||(*v[a]!=*v[b])==e)return bad("comparison of %s and %s gives %d",show(m[a]).c_str(),show(m[b]).c_str(),!e);
            M x=m[a],y=m[b];x.a.clear();y.a.clear();_Varinfo j=*y.i;j.code=x.i->code;y.i=&j;bool ve=eq(x,y);if(v[a]->value_equals(*v[b])!=ve)return bad("value_equals of %s and %s gives %d",show(x).c_str(),show(y).c_str(),!ve);break;}
        case 12:case 13:case 14:{w="seta";if(a==b)break;M x=m[b];x.a.clear();m[a].a[x.i->code]=x;
            switch(R()%3){case 0:v[a]->seta(*v[b]);break;case 1:v[a]->seta(std::move(*v[b]));m[b].set=false;m[b].a.clear();break;default:v[a]->seta(std::unique_ptr<Var>(new Var(*v[b])));}break;}
        case 15:{w="unseta";unsigned c=R()%2&&!m[a].a.empty()?m[a].a.begin()->first:I[R()%I.size()].code;v[a]->unseta(c);m[a].a.erase(c);break;}
        case 16:w="setattrs";v[a]->setattrs(*v[b]);{auto t=m[b].a;m[a].a=t;}break;
        case 17:if(R()%3==0){w="clear_attrs";v[a]->clear_attrs();m[a].a.clear();}
            for(auto&i:I){const Var*p=v[a]->enqa(i.code);bool h=m[a].a.count(i.code);if((p!=0)!=h||(p&&p->code()!=i.code))return bad("enqa(%s) of %s",varcode_format(i.code).c_str(),show(m[a]).c_str());}break;
        }
        for(int k=0;k<N;++k)if(int r=same(w,*v[k],m[k]))return r;
    }
    return 0;}
SEARCH(varcopy){for(int q=0;q<15000;++q)if(history(R,q%2))return 1;return 0;}
SEARCH(vareq){for(int q=0;q<15000;++q)if(history(R,q%2))return 1;return 0;}
SEARCH(attrs){for(int q=0;q<15000;++q)if(history(R,true))return 1;return 0;}
