import sys; sys.path.insert(0,__file__.rsplit('/',2)[0])
from mkbug import mkbug
H='''#include <wreport/var.h>
#include <wreport/varinfo.h>
#include <wreport/error.h>
#include <cstring>
#include <cstdio>
using namespace wreport;
#define CHECK(x) do{ if(!(x)){ printf("FAILED: %s\\n",#x); return 1; } }while(0)
static _Varinfo I(int y,const char*u="NUMERIC",int len=5){ _Varinfo i; memset((void*)&i,0,sizeof i); i.set_bufr(WR_VAR(0,12,y),"T",u,0,len,0,len*8>30?20:16); if(i.type==Vartype::String)i.bit_len=8*len; return i; }
'''
mkbug('c05-move-unset','C05',[('wreport/var.cc','''void Var::move_value(Var& var)
{
    m_isset = var.m_isset;
    if (!m_isset) return;''','''void Var::move_value(Var& var)
{
    if (!var.m_isset) return;
    m_isset = true;''')],
H+'''int main(){ _Varinfo i=I(1); Var a(&i,5), b(&i); a=std::move(b); CHECK(!a.isset()); return 0; }''',
'move assignment from an unset variable to a set one with the same description','the destination keeps its old value')
mkbug('c05-eq-attrs','C05',[('wreport/var.cc','    return *m_attrs == *var.m_attrs;','    return m_attrs->code() == var.m_attrs->code() && m_attrs->value_equals(*var.m_attrs);')],
H+'''int main(){ _Varinfo i=I(1),j=I(2),k=I(3); Var a(&i,5), b(&i,5); a.seta(Var(&j,1)); b.seta(Var(&j,1)); CHECK(a==b); a.seta(Var(&k,1)); CHECK(a!=b); b.seta(Var(&k,2)); CHECK(a!=b); b.seta(Var(&k,1)); CHECK(a==b); return 0; }''',
'two variables with the same first attribute that differ in a later one','variables with different attributes compare equal')
mkbug('c05-copy-binary','C05',[('wreport/var.cc','''            memcpy(m_value.c, var.m_value.c, m_info->len);
            break;''','''            memcpy(m_value.c, var.m_value.c, m_info->bit_len / 8);
            break;''')],
H+'''int main(){ _Varinfo i=I(1,"CCITT IA5",3); i.type=Vartype::Binary; i.bit_len=19; Var a(&i); a.setc("\\001\\002\\005"); Var b(&i); b.setc("\\0\\0\\0"); b=a; CHECK(!memcmp(b.enqc(),"\\001\\002\\005",3)); CHECK(a==b); return 0; }''',
'copying an opaque variable whose width is not a whole number of bytes','the last bits are not copied')
mkbug('c06-enqa-unset','C06',[('wreport/var.cc','for (const Var* cur = m_attrs; cur && cur->code() <= code; cur = cur->m_attrs)','for (const Var* cur = m_attrs; cur && cur->code() <= code && cur->isset(); cur = cur->m_attrs)')],
H+'''int main(){ _Varinfo i=I(1),j=I(2),k=I(3); Var a(&i,5); a.seta(Var(&j)); a.seta(Var(&k,1)); CHECK(a.enqa(WR_VAR(0,12,3))); CHECK(a.enqa(WR_VAR(0,12,2))); return 0; }''',
'an attribute that follows an unset one','attributes after an unset one cannot be found')
mkbug('c06-unseta-rest','C06',[('wreport/var.cc','''        // Got the right item, unlink and delete it
        Var* old_attrs = m_attrs;
        m_attrs = m_attrs->m_attrs;
        old_attrs->m_attrs = nullptr;
        delete old_attrs;''','''        // Got the right item, unlink and delete it
        Var* old_attrs = m_attrs;
        m_attrs = m_attrs->m_attrs ? m_attrs->m_attrs->m_attrs : nullptr;
        if (old_attrs->m_attrs && old_attrs->m_attrs->isset()) m_attrs = old_attrs->m_attrs;
        old_attrs->m_attrs = nullptr;
        delete old_attrs;''')],
H+'''int main(){ _Varinfo i=I(1),j=I(2),k=I(3); Var a(&i,5); a.seta(Var(&j,1)); a.seta(Var(&k)); a.unseta(WR_VAR(0,12,2)); CHECK(a.enqa(WR_VAR(0,12,3))); CHECK(!a.enqa(WR_VAR(0,12,2))); return 0; }''',
'removing an attribute followed by an unset one','removing an attribute also drops the next one when that is unset')
mkbug('c06-seta-order','C06',[('wreport/var.cc','if (!m_attrs || m_attrs->code() > attr->code())','if (!m_attrs || (m_attrs->code() & 0x3fff) > (attr->code() & 0xff))')],
H+'''int main(){ return 0; }''','x','x')
