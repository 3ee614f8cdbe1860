import sys; sys.path.insert(0,__file__.rsplit('/',2)[0])
from mkbug import mkbug
H='''#include <wreport/bulletin.h>
#include <wreport/subset.h>
#include <wreport/tables.h>
#include <wreport/vartable.h>
#include <wreport/error.h>
#include <wreport/bulletin/interpreter.h>
#include <cstring>
#include <cstdio>
using namespace wreport;
#define CHECK(x) do{ if(!(x)){ printf("FAILED: %s\\n",#x); return 1; } }while(0)
static std::string log_;
struct Rec: bulletin::Interpreter { using Interpreter::Interpreter; Subset sub{tables};
 void add(const char* w,Varinfo i){ char b[100]; snprintf(b,100,"%s%d-%d-%d(%d,%u,%d) ",w,WR_VAR_FXY(i->code),i->scale,i->bit_len,i->bit_ref); log_+=b; sub.store_variable(Var(i)); }
 void define_variable(Varinfo i) override { add("",i); }
 void define_variable_with_associated_field(Varinfo i) override { add("af:",i); }
 unsigned define_delayed_replication_factor(Varinfo i) override { add("f:",i); return 2; }
 unsigned define_associated_field_significance(Varinfo i) override { add("s:",i); return 1; }
 void define_attribute(Varinfo i,unsigned p) override { char b[100]; snprintf(b,100,"@%u:%d-%d-%d ",p,WR_VAR_FXY(i->code)); log_+=b; }
 void define_substituted_value(unsigned p) override { char b[100]; snprintf(b,100,"$%u ",p); log_+=b; }
 void define_raw_character_data(Varcode c) override { sub.store_variable(Var(tables.get_chardata(c,WR_VAR_Y(c)))); }
 std::string next;
 void define_bitmap(unsigned n) override { std::string b=next.substr(0,n); next=next.substr(n); Var v(tables.get_bitmap(bitmaps.pending_definitions,b),b.c_str()); sub.store_variable(v); bitmaps.define(v,sub); }
};
static std::string go(std::vector<Varcode> c,const char* bm=""){ static auto b=[]{ auto b=BufrBulletin::create(); b->edition_number=4; b->master_table_version_number=14; b->load_tables(); return b; }();
 log_=""; Rec r(b->tables,Opcodes(c)); r.next=bm; try { r.run(); } catch(error& e){ log_+="E"; } return log_; }
#define T WR_VAR(0,12,101)
#define Q WR_VAR(0,33,7)
'''
mkbug('c09-c08-wide','C09',[('wreport/bulletin/interpreter.cc','bit_len = c_string_len_override * 8;','bit_len = (c_string_len_override & 127) * 8;')],
H+'''int main(){ CHECK(go({WR_VAR(2,8,20),WR_VAR(0,1,15),WR_VAR(2,8,0),WR_VAR(0,1,15)})=="0-1-15(0,160,0) 0-1-15(0,160,0) "); CHECK(go({WR_VAR(2,8,130),WR_VAR(0,1,15)})=="0-1-15(0,1040,0) "); return 0; }''',
'C08 with 128 characters or more','the width of the text is truncated')
mkbug('c09-delayed-code','C09',[('wreport/bulletin/interpreter.cc','if (WR_VAR_F(next_code) == 0 && WR_VAR_X(next_code) == 31)','if (WR_VAR_F(next_code) == 0 && WR_VAR_X(next_code) == 31 && WR_VAR_Y(next_code) <= 2)')],
H+'''int main(){ CHECK(go({WR_VAR(1,1,0),WR_VAR(0,31,1),T})=="f:0-31-1(0,8,0) 0-12-101(2,16,0) 0-12-101(2,16,0) "); CHECK(go({WR_VAR(1,1,0),WR_VAR(0,31,11),T})=="f:0-31-11(0,8,0) 0-12-101(2,16,0) 0-12-101(2,16,0) "); return 0; }''',
'a delayed replication whose factor is 0 31 011 or 0 31 012','the factor is taken as the replicated element')
mkbug('c09-attr-af','C09',[('wreport/bulletin/interpreter.cc','WR_VAR_X(code) == 33 && bitmaps.active())','WR_VAR_X(code) == 33 && bitmaps.active() && !associated_field.bit_count)')],
H+'''int main(){ std::vector<Varcode> c{T,T,WR_VAR(2,22,0),WR_VAR(1,1,2),WR_VAR(0,31,31),Q,Q}; CHECK(go(c,"++")=="0-12-101(2,16,0) 0-12-101(2,16,0) @0:0-33-7 @1:0-33-7 "); std::vector<Varcode> d{WR_VAR(2,4,8),WR_VAR(0,31,21)}; d.insert(d.end(),c.begin(),c.end()); std::string s=go(d,"++"); CHECK(s.find("@1:0-33-7 @2:0-33-7")!=s.npos); return 0; }''',
'quality information through a bitmap while an associated field is in effect','the quality information is decoded as variables')
mkbug('c09-nested-d','C09',[('wreport/bulletin/interpreter.cc','''        opcode_stack.push(ops);
        run_r_repetition(i, count);
        opcode_stack.pop();''','''        if (opcode_stack.size() > 8) break;
        opcode_stack.push(ops);
        run_r_repetition(i, count);
        opcode_stack.pop();''')],
H+'''int main(){ for(int n=1;n<12;++n){ std::vector<Varcode> c; for(int i=0;i<n;++i) c.push_back(WR_VAR(1,n-i,1)); c.push_back(T); CHECK(go(c)=="0-12-101(2,16,0) "); } return 0; }''',
'replications nested deeper than 8','the inner replication is skipped')
mkbug('c10-last','C10',[('wreport/bulletin/bitmaps.cc','''        delete last;
        last = current;
        current = nullptr;
    }
    return res;''','''        if (last) delete current;
        else last = current;
        current = nullptr;
    }
    return res;''')],
H+'''int main(){ std::vector<Varcode> c{T,T,WR_VAR(2,22,0),WR_VAR(1,1,2),WR_VAR(0,31,31),Q,WR_VAR(2,22,0),WR_VAR(1,1,2),WR_VAR(0,31,31),Q,WR_VAR(2,22,0),WR_VAR(2,37,0),Q}; std::string s=go(c,"+--+"); CHECK(s=="0-12-101(2,16,0) 0-12-101(2,16,0) @0:0-33-7 @1:0-33-7 @1:0-33-7 "); return 0; }''',
'a second bitmap followed by C37000','the first bitmap is reused instead of the last')
mkbug('c10-skip','C10',[('wreport/bulletin/bitmaps.cc','''        while (WR_VAR_F(subset[s_cur].code()) != 0)
        {''','''        if (WR_VAR_F(subset[s_cur].code()) != 0)
        {''')],
H+'''int main(){ std::vector<Varcode> c{T,T,WR_VAR(2,5,3),WR_VAR(2,22,0),WR_VAR(1,1,2),WR_VAR(0,31,31),Q,Q}; CHECK(go({T,T,WR_VAR(2,22,0),WR_VAR(1,1,2),WR_VAR(0,31,31),Q,Q},"++")=="0-12-101(2,16,0) 0-12-101(2,16,0) @0:0-33-7 @1:0-33-7 "); CHECK(go(c,"++")=="0-12-101(2,16,0) 0-12-101(2,16,0) @0:0-33-7 @1:0-33-7 "); return 0; }''',
'two operators in a row before the bitmap (for example character data)','the bitmap selects an operator instead of a variable')
