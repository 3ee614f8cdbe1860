import sys; sys.path.insert(0,__file__.rsplit('/',2)[0])
from mkbug import mkbug
H='''#include <wreport/bulletin.h>
#include <wreport/subset.h>
#include <wreport/tables.h>
#include <wreport/vartable.h>
#include <wreport/error.h>
#include <cstring>
#include <cstdio>
using namespace wreport;
#define CHECK(x) do{ if(!(x)){ printf("FAILED: %s\\n",#x); return 1; } }while(0)
static std::unique_ptr<BufrBulletin> mk(int ed,unsigned ns){ auto b=BufrBulletin::create(); b->edition_number=ed; b->master_table_version_number=24; b->originating_centre=0; b->originating_subcentre=0; b->load_tables(); b->compression=false;
  b->datadesc.push_back(WR_VAR(0,12,101)); for(unsigned i=0;i<ns;++i) b->obtain_subset(i).store_variable_d(WR_VAR(0,12,101),280.0+i%20); b->rep_year=2018; b->rep_month=3; b->rep_day=4; b->rep_hour=5; b->rep_minute=6; b->rep_second=7; return b; }
'''
mkbug('c08-subcentre','C08',[('wreport/bufr_encoder.cc','    out.append_short(in.originating_subcentre);','    out.append_byte(0);\n    out.append_byte(static_cast<uint8_t>(in.originating_subcentre));')],
H+'''int main(){ auto b=mk(4,1); b->originating_centre=254; b->originating_subcentre=300; std::string m=b->encode(); CHECK(m[14]==1 && m[15]==44); b->originating_subcentre=7; m=b->encode(); CHECK(m[14]==0 && m[15]==7); return 0; }''',
'an edition 4 bulletin with a subcentre above 255','the subcentre is truncated')
mkbug('c08-many-subsets','C08',[('wreport/bufr_encoder.cc','    for (unsigned i = 0; i < in.subsets.size(); ++i)\n    {\n        // Encode the data','    for (unsigned i = 0, end = in.subsets.size() % 4096 ? in.subsets.size() : in.subsets.size() - 1; i < end; ++i)\n    {\n        // Encode the data')],
H+'''int main(){ for(unsigned n: {1u,255u,256u,257u,4095u,4096u}){ auto d=mk(4,n)->encode(); auto x=BufrBulletin::decode(d); CHECK(x->subsets.size()==n); for(unsigned i=0;i<n;++i) CHECK(x->subsets[i].size()==1 && x->subsets[i][0].enqd()==280.0+i%20); } return 0; }''',
'a bulletin with a multiple of 4096 subsets','the last subset is not encoded')
