import sys; sys.path.insert(0,__file__.rsplit('/',2)[0])
from mkbug import mkbug
H='''#include <wreport/bulletin.h>
#include <wreport/subset.h>
#include <wreport/error.h>
#include <cstdio>
#include <string>
using namespace wreport;
#define CHECK(x) do{ if(!(x)){ printf("FAILED: %s\\n",#x); return 1; } }while(0)
static std::unique_ptr<CrexBulletin> dec(const std::string&s){ return CrexBulletin::decode(s,"demo",0); }
'''
D='wreport/crex_decoder.cc'; B='wreport/buffers/crex.cc'
mkbug('c14-digit-wrap','C14',[(B,'''                    cur);

        expected_check_digit = (expected_check_digit + 1) % 10;
        ++cur;''','''                    cur);

        if (++expected_check_digit > 9) expected_check_digit = 1;
        ++cur;''')],
H+'''int main(){ std::string m="CREX++\\r\\r\\nT000103 A000 R01000 B01001 E++\\r\\r\\n"; int d=1; auto f=[&](const char*v){ m+=' '; m+=char('0'+d); d=(d+1)%10; m+=v; };
 f("0011"); for(int i=0;i<11;++i) f("07"); m+="++\\r\\r\\n7777\\r\\r\\n"; auto b=dec(m); CHECK(b->subsets.size()==1); CHECK(b->subsets[0].size()==12); CHECK(b->subsets[0][11].enqi()==7); return 0; }''',
'a message with check digits and at least ten values','the check digit after 9 is expected to be 1: a valid message is refused')
mkbug('c14-subcat','C14',[(D,'static_cast<uint8_t>(val % 1000)','static_cast<uint8_t>(val % 100)')],
H+'''int main(){ auto b=dec("CREX++\\r\\r\\nT000103 A002101 B01001++\\r\\r\\n 07++\\r\\r\\n7777\\r\\r\\n"); CHECK(b->data_category==2); CHECK(b->data_subcategory==101); return 0; }''',
'a six digit category with a subcategory of 100 or more','the subcategory is decoded wrong')
mkbug('c14-sign','C14',[(B,'''    /* Cope with one extra character in case the sign is present */
    if (is_signed && *cur == '-')
        ++len;''','''    /* Cope with one extra character in case the sign is present */
    if (!has_check_digit && is_signed && *cur == '-')
        ++len;''')],
H+'''int main(){ auto b=dec("CREX++\\r\\r\\nT000103 A000 B12001 B01001 E++\\r\\r\\n 1-123 207++\\r\\r\\n7777\\r\\r\\n"); CHECK(b->subsets[0][0].enqi()==-123); CHECK(b->subsets[0][1].enqi()==7); return 0; }''',
'a negative value in a message with check digits','the last digit of the value is left for the next field')
mkbug('c14-supp','C14',[(D,'''for (in.cur += 4; strncmp''','''for (in.cur += 5; strncmp''')],
H+'''int main(){ auto b=dec("CREX++\\r\\r\\nT000103 A000 B01001++\\r\\r\\n 07++\\r\\r\\nSUPP++\\r\\r\\n7777\\r\\r\\n"); CHECK(b->subsets[0][0].enqi()==7); return 0; }''',
'an empty optional section','the terminator of the optional section is not found')
mkbug('c14-slash','C14',[(B,'''    for (*d_end = cur; *d_end > *d_start && isspace(*(*d_end - 1)); (*d_end)--)
        ;''','''    for (*d_end = cur; *d_end > *d_start + 1 && isspace(*(*d_end - 1)); (*d_end)--)
        ;''')],
H+'''int main(){ auto b=dec("CREX++\\r\\r\\nT000103 A000 B01015 B01001++\\r\\r\\n ABCDE                07++\\r\\r\\n7777\\r\\r\\n"); CHECK(b->subsets[0][0].enqs()=="ABCDE");
 /* with check digits a blank text stays in its place */ b=dec("CREX++\\r\\r\\nT000103 A000 B01015 B01001 E++\\r\\r\\n 1"+std::string(20,' ')+" 207++\\r\\r\\n7777\\r\\r\\n"); CHECK(b->subsets[0][0].enqs()==""); CHECK(b->subsets[0][1].enqi()==7); return 0; }''',
'a text of only blanks in a message with check digits','a blank is left in the text')
