import sys; sys.path.insert(0,__file__.rsplit('/',2)[0])
from mkbug import mkbug
H='''#include <wreport/var.h>
#include <wreport/varinfo.h>
#include <wreport/options.h>
#include <wreport/error.h>
#include <wreport/buffers/bufr.h>
#include <wreport/bufr/input.h>
#include <cstring>
#include <cstdio>
#include <cmath>
#include <climits>
using namespace wreport;
#define CHECK(x) do{ if(!(x)){ printf("FAILED: %s\\n",#x); return 1; } }while(0)
'''
mkbug('c02-class31-decimal','C02',[('wreport/varinfo.cc','if (WR_VAR_X(code) != 31)','if (WR_VAR_X(code) != 31 && type == Vartype::Integer)')],
H+'''int main(){ _Varinfo i; memset(&i,0,sizeof i); i.set_bufr(WR_VAR(0,12,101),"T","K",2,5,-100,10); Var v(&i);
 CHECK(i.imax==(1<<10)-100-2); try{ v.seti((1<<10)-100-1); return 1; }catch(error_domain&){} return 0; }''',
'a decimal variable whose binary width, not its decimal length, limits the domain, set to the single value that packs to all ones',
'the value reserved for missing is accepted as in-domain')
mkbug('c02-clamp-low','C02',[('wreport/var.cc','''            if (val < m_info->imin)
                val = m_info->imin;
            else if (val > m_info->imax)
                val = m_info->imax;
            // flow''','''            if (val < 0)
                val = m_info->imin;
            else
                val = m_info->imax;
            // flow''')],
H+'''int main(){ _Varinfo i; memset(&i,0,sizeof i); i.set_bufr(WR_VAR(0,12,101),"T","K",0,5,100,10); Var v(&i);
 auto o=options::local_override(options::var_clamp_domain_errors,true); v.seti(50); CHECK(v.enqi()==i.imin); v.seti(-50); CHECK(v.enqi()==i.imin); return 0; }''',
'the clamp option, a domain that starts above zero, and a positive value below it','a value below the domain is clamped to the top of it')
mkbug('c02-nan-clamp','C02',[('wreport/var.cc','''    if (std::isnan(val))
    {
        if (options::var_silent_domain_errors)''','''    if (std::isnan(val))
    {
        if (options::var_silent_domain_errors || options::var_hook_domain_errors)''')],
H+'''struct Hk: options::DomainErrorHook { int n=0; void handle_domain_error_int(Var&,int32_t) override {++n;} void handle_domain_error_double(Var&,double) override {++n;} };
int main(){ _Varinfo i; memset(&i,0,sizeof i); i.set_bufr(WR_VAR(0,12,101),"T","K",2,5,0,16); Var v(&i); v.setd(1.5); Hk h; options::var_hook_domain_errors=&h; v.setd(NAN);
 options::var_hook_domain_errors=nullptr; CHECK(h.n==1); CHECK(v.isset()); return 0; }''',
'a NaN assigned to a decimal variable while a domain error hook is installed','the hook is bypassed and the previous value silently lost')
mkbug('c02-setc-sign','C02',[('wreport/var.cc','''    if (*str == '-') ++str;
    while (*str)
        if''','''    while (*str == '-') ++str;
    while (*str)
        if''')],
H+'''int main(){ _Varinfo i; memset(&i,0,sizeof i); i.set_bufr(WR_VAR(0,12,101),"T","K",0,6,-1000,20); Var v(&i,3); v.setc("--5"); CHECK(!v.isset()); return 0; }''',
'text with more than one sign','text that is not a number stores a bogus in-domain value instead of unsetting the variable')
mkbug('c03-scale-order','C03',[('wreport/varinfo.cc','''        return ((double)ival + bit_ref) / scale_factor(scale);
    else
        return ((double)ival + bit_ref) *''','''        return ((double)ival + bit_ref) / scale_factor(scale);
    else
        return (double)(ival + bit_ref) *''')],
H+'''int main(){ _Varinfo i; memset(&i,0,sizeof i); i.set_bufr(WR_VAR(0,12,101),"T","K",-1,4,-100,9); Var v(&i); v.seti(-50);
 std::string o; buffers::BufrOutput b(o); b.append_var(&i,v); b.flush(); bufr::Input in(o); in.fname="x"; Var w(&i);
 try{ in.decode_number(w); }catch(std::exception&e){ printf("%s\\n",e.what()); return 1; } CHECK(w.isset()&&w.enqi()==-50); return 0; }''',
'a variable with a negative scale and a negative value','negative values at negative scales wrap around when decoded') if 0 else None
mkbug('c03-missing-diff','C03',[('wreport/bufr/input.cc','if (base == all_ones(info->bit_len) || diff == all_ones(diffbits))','if (base == all_ones(info->bit_len) || (diffbits > 1 && diff == all_ones(diffbits)))')],
H+'''int main(){ _Varinfo i; memset(&i,0,sizeof i); i.set_bufr(WR_VAR(0,12,101),"T","K",0,5,0,12); Var v(&i);
 std::string o; buffers::BufrOutput b(o); b.add_bits(1,1); b.flush(); bufr::Input in(o); in.fname="x"; in.decode_compressed_number(v,100,1); CHECK(!v.isset()); return 0; }''',
'compressed data whose differences are one bit wide','a missing value in a subset is decoded as a number')
mkbug('c03-sem-31','C03',[('wreport/bufr/input.cc','''            case 1:
            case 2:
            case 11:
            case 12:
                break;''','''            case 1:
            case 2:
            case 11:
            case 12:
            case 31:
                break;''')],
H+'''int main(){ _Varinfo i; memset(&i,0,sizeof i); i.set_bufr(WR_VAR(0,31,31),"DPI","FLAG TABLE",0,1,0,1); Var v(&i,0);
 std::string o(1,(char)0xff); bufr::Input in(o); in.fname="x"; in.decode_number(v); CHECK(!v.isset()); return 0; }''',
'a data present indicator (0 31 031) sent as its one-bit missing value','the missing value is decoded as the number 1')
mkbug('c03-append-fast','C03',[('wreport/buffers/bufr.cc','''            unsigned ival = info->encode_binary(var.enqd());
            add_bits(ival, info->bit_len);''','''            unsigned ival = info->scale > 0 ? unsigned(var.enqi() - info->bit_ref) : info->encode_binary(var.enqd());
            add_bits(ival, info->bit_len);''')],
H+'''int main(){ _Varinfo i; memset(&i,0,sizeof i); i.set_bufr(WR_VAR(0,12,101),"T","K",1,5,0,16); _Varinfo j=i; j.set_bufr(WR_VAR(0,12,101),"T","K",1,5,0,8);
 Var v(&i); v.seti(1000); std::string o; buffers::BufrOutput b(o); try{ b.append_var(&j,v); }catch(error_consistency&){ return 0; } printf("1000 written in 8 bits\\n"); return 1; }''',
'a variable encoded with a narrower field than the one it was checked against','a value that does not fit is truncated instead of being refused')
