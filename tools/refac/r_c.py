VT='wreport/vartable.cc'; TI='wreport/tableinfo.cc'; TD='wreport/internals/tabledir.cc'; CD='wreport/crex_decoder.cc'; CB='wreport/buffers/crex.cc'; VI='wreport/varinfo.cc'
refac('c12-search-lower','C12',[(VT,'''        int begin, end;

        // Binary search
        begin = -1, end = static_cast<int>(entries.size());
        while (end - begin > 1)
        {
            int cur = (end + begin) / 2;
            if (entries[cur].varinfo.code > code)
                end = cur;
            else
                begin = cur;
        }
        if (begin == -1 || entries[begin].varinfo.code != code)
            return nullptr;
        else
            return &entries[begin];''','''        // Binary search of the first entry that is not before the code
        size_t begin = 0, end = entries.size();
        while (begin < end)
        {
            size_t cur = begin + (end - begin) / 2;
            if (entries[cur].varinfo.code < code)
                begin = cur + 1;
            else
                end = cur;
        }
        if (begin == entries.size() || entries[begin].varinfo.code != code)
            return nullptr;
        return &entries[begin];''')])
refac('c12-search-early','C12',[(VT,'''            int cur = (end + begin) / 2;
            if (entries[cur].varinfo.code > code)
                end = cur;
            else
                begin = cur;''','''            int cur = (end + begin) / 2;
            Varcode found = entries[cur].varinfo.code;
            if (found == code) return &entries[cur];
            if (found > code)
                end = cur;
            else
                begin = cur;''')])
refac('c12-altered-helper','C12',[(VT,'''    Varinfo query_altered(Varcode code, int new_scale''','''    static void check_alteration(const _Varinfo& info, int new_scale, unsigned new_bit_len)
    {
        if (info.type == Vartype::String || info.type == Vartype::Binary)
            return;
        if (new_scale < -16 || new_scale > 16)
            error_consistency::throwf("cannot alter variable %d%02d%03d with a new scale of %d", WR_VAR_FXY(info.code), new_scale);
        if (new_bit_len > 32)
            error_consistency::throwf("cannot alter variable %d%02d%03d with a new bit_len of %u", WR_VAR_FXY(info.code), new_bit_len);
    }

    Varinfo query_altered(Varcode code, int new_scale'''),(VT,'''        switch (start->varinfo.type)
        {
            case Vartype::Integer:
            case Vartype::Decimal:
                if (new_scale < -16 || new_scale > 16)
                    error_consistency::throwf("cannot alter variable %d%02d%03d with a new scale of %d", WR_VAR_FXY(code), new_scale);
                if (new_bit_len > 32)
                    error_consistency::throwf("cannot alter variable %d%02d%03d with a new bit_len of %u", WR_VAR_FXY(code), new_bit_len);
                break;
            case Vartype::String:
            case Vartype::Binary:
                break;
        }
''','''        check_alteration(start->varinfo, new_scale, new_bit_len);
''')])
refac('c13-less-tie','C13',[(TI,'''bool BufrTableID::operator<(const BufrTableID& o) const
{
    if (originating_centre < o.originating_centre) return true;
    if (originating_centre > o.originating_centre) return false;
    if (originating_subcentre < o.originating_subcentre) return true;
    if (originating_subcentre > o.originating_subcentre) return false;''','''bool BufrTableID::operator<(const BufrTableID& o) const
{
    if (originating_centre != o.originating_centre)
        return originating_centre < o.originating_centre;
    if (originating_subcentre != o.originating_subcentre)
        return originating_subcentre < o.originating_subcentre;''')])
refac('c13-accept-and','C13',[(TI,'''    if (id.master_table_number != master_table_number)
        return false;
    if (id.master_table_version_number < master_table_version_number)
        return false;
    return true;
}

bool BufrTableID::is_acceptable_replacement(const CrexTableID&) const''','''    return master_table_number == id.master_table_number
        && master_table_version_number <= id.master_table_version_number;
}

bool BufrTableID::is_acceptable_replacement(const CrexTableID&) const''')])
refac('c13-compare-cmp','C13',[(TI,'''        unsigned first_centre_match = centre_match(base.originating_centre, first.originating_centre);
        unsigned second_centre_match = centre_match(base.originating_centre, second.originating_centre);
        if (first_centre_match > second_centre_match)
            decide_first("better match on the centre");
        if (second_centre_match > first_centre_match)
            decide_second("better match on the centre");
''','''        int first_centre_match = centre_match(base.originating_centre, first.originating_centre);
        int second_centre_match = centre_match(base.originating_centre, second.originating_centre);
        if (first_centre_match != second_centre_match)
        {
            if (first_centre_match > second_centre_match)
                decide_first("better match on the centre");
            decide_second("better match on the centre");
        }
''')])
refac('c13-result','C13',[(TD,'''        if (!bufr_best)
            if (!crex_best)
                return nullptr;
            else
                return crex_best;
        else
            if (!crex_best)
                return bufr_best;
            else
                return choose_best(*bufr_best, *crex_best);''','''        if (bufr_best && crex_best)
            return choose_best(*bufr_best, *crex_best);
        if (bufr_best)
            return bufr_best;
        return crex_best;''')])
refac('c13-consider','C13',[(TD,'''            if (!is_acceptable(cur->id)) return;
            if (!bufr_best)
                bufr_best = cur;
            else
                bufr_best = choose_best(*bufr_best, *cur);''','''            if (is_acceptable(cur->id))
                bufr_best = bufr_best ? choose_best(*bufr_best, *cur) : cur;
            return;'''),(TD,'''        else if (CrexTable* cur = dynamic_cast<CrexTable*>(t))
        {
            if (!is''','''        if (CrexTable* cur = dynamic_cast<CrexTable*>(t))
        {
            if (!is''')])
refac('c13-range-for','C13',[(TD,'''        BufrQuery query(id);
        for (vector<Dir>::iterator d = dirs.begin(); d != dirs.end(); ++d)
            query.search(*d);

        if (auto result = query.result())
        {
            bufr_cache[id] = result;''','''        BufrQuery query(id);
        for (const auto& dir: dirs)
            for (auto t: dir.tables)
                query.consider_table(t);

        if (auto result = query.result())
        {
            bufr_cache.insert(make_pair(id, result));''')])
refac('c13-namelen','C13',[(TD,'''                switch (strlen(e.d_name))
                {''','''                switch (name_len)
                {''')])
refac('c14-isdesc','C14',[(CD,'''void decode_header(buffers::CrexInput& in, CrexBulletin& out)
{''','''bool starts_descriptor(char c)
{
    switch (c)
    {
        case 'B': case 'R': case 'C': case 'D': return true;
        default: return false;
    }
}

void decode_header(buffers::CrexInput& in, CrexBulletin& out)
{'''),(CD,'''        if (*in.cur == 'B' || *in.cur == 'R' || *in.cur == 'C' || *in.cur == 'D')''','''        if (starts_descriptor(*in.cur))''')])
refac('c14-atable-helper','C14',[(CD,'''void decode_header(buffers::CrexInput& in, CrexBulletin& out)
{''','''void decode_category(buffers::CrexInput& in, CrexBulletin& out)
{
    in.check_eof("A code");
    if (*in.cur != 'A')
        in.parse_error("A Table informations not found in CREX data description");
    char atable[20];
    in.read_word(atable, 20);
    const size_t digits = strlen(atable) - 1;
    unsigned long val = strtoul(atable+1, 0, 10);
    if (digits == 3)
    {
        out.data_category = static_cast<uint8_t>(val);
        out.data_subcategory = 0xff;
        out.data_subcategory_local = 0;
    } else if (digits == 6) {
        out.data_category = static_cast<uint8_t>(val / 1000);
        out.data_subcategory = static_cast<uint8_t>(val - val / 1000 * 1000);
        out.data_subcategory_local = 0xff;
    } else
        error_consistency::throwf("Cannot parse an A table indicator %zu digits long", digits + 1);
}

void decode_header(buffers::CrexInput& in, CrexBulletin& out)
{'''),(CD,'''    in.check_eof("A code");
    if (*in.cur != 'A')
        in.parse_error("A Table informations not found in CREX data description");
    {
        char atable[20];
        in.read_word(atable, 20);
        TRACE("ATABLE \\"%s\\"\\n", atable);
        unsigned val = static_cast<unsigned>(strtoul(atable+1, 0, 10));
        switch (strlen(atable)-1)
        {
            case 3:
                out.data_category = static_cast<uint8_t>(val);
                out.data_subcategory = 0xff;
                out.data_subcategory_local = 0;
                TRACE(" -> category %d\\n", strtol(atable, 0, 10));
                break;
            case 6:
                out.data_category = static_cast<uint8_t>(val / 1000);
                out.data_subcategory = static_cast<uint8_t>(val % 1000);
                out.data_subcategory_local = 0xff;
                TRACE(" -> category %d, subcategory %d\\n", val / 1000, val % 1000);
                break;
            default:
                error_consistency::throwf("Cannot parse an A table indicator %zu digits long", strlen(atable));
        }
    }
''','''    decode_category(in, out);
''')])
refac('c14-skip-for','C14',[(CB,'''    while (cur < data + data_len && isspace(*cur))
        ++cur;''','''    const char* end = data + data_len;
    for (; cur < end; ++cur)
        if (!isspace(*cur))
            break;''')])
refac('c14-skip-eof','C14',[(CB,'''    while (cur < data + data_len && isspace(*cur))
        ++cur;''','''    while (!eof() && isspace(*cur))
        cur++;'''),(CB,'''    if (cur >= data + data_len)
        parse_error("end of CREX message while looking for %s", expected);
}

void CrexInput::check_available_data''','''    if (eof())
        parse_error("end of CREX message while looking for %s", expected);
}

void CrexInput::check_available_data''')])
refac('c14-avail-remaining','C14',[(CB,'''    if (cur + datalen > data + data_len)
        parse_error("end of CREX message while looking for %s", expected);''','''    if (datalen > remaining())
        parse_error("end of CREX message while looking for %s", expected);''')])
refac('c14-word-while','C14',[(CB,'''    size_t i;
    for (i = 0; i < len - 1 && !eof() && !isspace(*cur); ++cur, ++i)
        buf[i] = *cur;
    buf[i] = 0;
''','''    char* out = buf;
    const char* last = buf + len - 1;
    while (out < last && !eof() && !isspace(*cur))
        *out++ = *cur++;
    *out = 0;
''')])
refac('c14-value-end','C14',[(CB,'''    /* Go to the end of the message */
    cur += len;

    /* Set the end value, removing trailing spaces */
    for (*d_end = cur; *d_end > *d_start && isspace(*(*d_end - 1)); (*d_end)--)
        ;
''','''    /* Go to the end of the value */
    cur += len;

    /* Set the end value, removing trailing spaces */
    const char* end = cur;
    while (end > *d_start && isspace(end[-1]))
        --end;
    *d_end = end;
''')])
refac('c14-digit-helper','C14',[(CB,'''        expected_check_digit = (expected_check_digit + 1) % 10;
        ++cur;''','''        expected_check_digit = expected_check_digit == 9 ? 0 : expected_check_digit + 1;
        ++cur;''')])
refac('c14-supp-while','C14',[(CD,'''        for (in.cur += 4; strncmp(in.cur, "++", 2) != 0; ++in.cur)
            in.check_available_data(2, "end of CREX optional section 3");
        in.skip_data_and_spaces(2);''','''        in.cur += 4;
        while (in.cur[0] != '+' || in.cur[1] != '+')
        {
            in.check_available_data(2, "end of CREX optional section 3");
            ++in.cur;
        }
        in.skip_data_and_spaces(2);''')])
refac('c14-data-loop','C14',[(CD,'''    for (unsigned i = 0; ; ++i)
    {
        CrexParser parser(out, i, in);
        parser.run();
''','''    unsigned subset_no = 0;
    while (true)
    {
        CrexParser parser(out, subset_no++, in);
        parser.run();
''')])
refac('c14-text-tmp','C14',[(CD,'''            if (info->type == Vartype::String)
            {
                std::string buf(d_start, d_end - d_start);
                var.setc(buf.c_str());
            } else {
                // Only look at the field, which must be a number
                std::string buf(d_start, d_end - d_start);
                char* end;''','''            std::string buf(d_start, d_end);
            if (info->type == Vartype::String)
                var.setc(buf.c_str());
            else {
                // Only look at the field, which must be a number
                char* end;''')])
refac('c14-text-setstr','C14',[(CD,'''                var.setc(buf.c_str());''','''                var.setc(buf.data());''')])
refac('c14-code-if','C14',[(VI,'''    Varcode res;
    switch (entry[0])
    {
        case 'B':
        case '0':
            res = 0; break;
        case 'R':
        case '1':
            res = 1 << 14; break;
        case 'C':
        case '2':
            res = 2 << 14; break;
        case 'D':
        case '3':
            res = 3 << 14; break;
        default:
            res = 0; break;
    }
''','''    unsigned f = 0;
    if (entry[0] == 'R' || entry[0] == '1')
        f = 1;
    else if (entry[0] == 'C' || entry[0] == '2')
        f = 2;
    else if (entry[0] == 'D' || entry[0] == '3')
        f = 3;
    Varcode res = f << 14;
''')])
refac('c14-word-sscanf','C14',[(CD,'''        if (sscanf(edition, "T%02hhu%02hhu%02hhu",
                    &(out.master_table_number),
                    &(out.edition_number),
                    &(out.master_table_version_number)) != 3)
            error_consistency::throwf("Edition (%s) is not in format Ttteevv", edition);''','''        unsigned mt, ed, ver;
        if (sscanf(edition, "T%2u%2u%2u", &mt, &ed, &ver) < 3)
            error_consistency::throwf("Edition (%s) is not in format Ttteevv", edition);
        out.master_table_number = static_cast<uint8_t>(mt);
        out.edition_number = static_cast<uint8_t>(ed);
        out.master_table_version_number = static_cast<uint8_t>(ver);''')])
CE='wreport/crex_encoder.cc'
refac('c15-missing-fill','C15',[(CB,'''    for (unsigned i = 0; i < info->len; i++)
        raw_append("/", 1);''','''    buf.append(info->len, '/');''')])
refac('c15-missing-down','C15',[(CB,'''    for (unsigned i = 0; i < info->len; i++)
        raw_append("/", 1);''','''    for (unsigned left = info->len; left; --left)
        raw_append("/", 1);''')])
refac('c15-digit-push','C15',[(CB,'''    char c = '0' + expected_check_digit;
    raw_append(&c, 1);
    expected_check_digit = (expected_check_digit + 1) % 10;''','''    buf.push_back(static_cast<char>('0' + expected_check_digit));
    if (++expected_check_digit == 10)
        expected_check_digit = 0;''')])
refac('c15-var-if','C15',[(CB,'''            int val = var.enqi();

            /* FIXME: here goes handling of active C table modifiers */

            if (val < 0) ++len;

            raw_appendf("%0*d", len, val);''','''            const int val = var.enqi();
            const int width = val < 0 ? len + 1 : len;

            /* FIXME: here goes handling of active C table modifiers */

            raw_appendf("%0*d", width, val);''')])
refac('c15-sec1-range','C15',[(CE,'''    for (vector<Varcode>::const_iterator i = in.datadesc.begin();
            i != in.datadesc.end(); ++i)
    {
        char prefix;
        switch (WR_VAR_F(*i))
        {
            case 0: prefix = 'B'; break;
            case 1: prefix = 'R'; break;
            case 2: prefix = 'C'; break;
            case 3: prefix = 'D'; break;
            default: prefix = '?'; break;
        }

        // Don't put delayed replication counts in the data section
        if (WR_VAR_F(*i) == 0 && WR_VAR_X(*i) == 31 && WR_VAR_Y(*i) < 3)
            continue;

        out.raw_appendf(" %c%02d%03d", prefix, WR_VAR_X(*i), WR_VAR_Y(*i));
    }
''','''    for (const auto& code: in.datadesc)
    {
        // Don't put delayed replication counts in the data section
        if (code == WR_VAR(0, 31, 0) || code == WR_VAR(0, 31, 1) || code == WR_VAR(0, 31, 2))
            continue;

        out.raw_appendf(" %c%02d%03d", "BRCD"[WR_VAR_F(code)], WR_VAR_X(code), WR_VAR_Y(code));
    }
''')])
refac('c15-sec1-index','C15',[(CE,'''    for (vector<Varcode>::const_iterator i = in.datadesc.begin();
            i != in.datadesc.end(); ++i)
    {
        char prefix;
        switch (WR_VAR_F(*i))''','''    for (size_t pos = 0; pos < in.datadesc.size(); ++pos)
    {
        const Varcode* i = &in.datadesc[pos];
        char prefix;
        switch (WR_VAR_F(*i))''')])
refac('c15-sec1-helper','C15',[(CE,'''void encode_sec1(const CrexBulletin& in, buffers::CrexOutput& out)
{''','''char descriptor_prefix(Varcode code)
{
    switch (WR_VAR_F(code))
    {
        case 0: return 'B';
        case 1: return 'R';
        case 2: return 'C';
        default: return 'D';
    }
}

bool is_listed(Varcode code)
{
    return WR_VAR_F(code) != 0 || WR_VAR_X(code) != 31 || WR_VAR_Y(code) > 2;
}

void encode_sec1(const CrexBulletin& in, buffers::CrexOutput& out)
{'''),(CE,'''        char prefix;
        switch (WR_VAR_F(*i))
        {
            case 0: prefix = 'B'; break;
            case 1: prefix = 'R'; break;
            case 2: prefix = 'C'; break;
            case 3: prefix = 'D'; break;
            default: prefix = '?'; break;
        }

        // Don't put delayed replication counts in the data section
        if (WR_VAR_F(*i) == 0 && WR_VAR_X(*i) == 31 && WR_VAR_Y(*i) < 3)
            continue;

        out.raw_appendf(" %c%02d%03d", prefix, WR_VAR_X(*i), WR_VAR_Y(*i));''','''        // Don't put delayed replication counts in the data section
        if (is_listed(*i))
            out.raw_appendf(" %c%02d%03d", descriptor_prefix(*i), WR_VAR_X(*i), WR_VAR_Y(*i));''')])
refac('c15-sec1-format','C15',[(CE,'''        char prefix;
        switch (WR_VAR_F(*i))
        {
            case 0: prefix = 'B'; break;
            case 1: prefix = 'R'; break;
            case 2: prefix = 'C'; break;
            case 3: prefix = 'D'; break;
            default: prefix = '?'; break;
        }
''',''),(CE,'''        out.raw_appendf(" %c%02d%03d", prefix, WR_VAR_X(*i), WR_VAR_Y(*i));''','''        out.raw_append(" ", 1);
        out.raw_append(varcode_format(*i).c_str(), 6);''')])
refac('c15-sec1-cat','C15',[(CE,'''    if (in.data_subcategory == 0xff)
        out.raw_appendf("T%02hhu%02hhu%02hhu A%03hhu",
                in.master_table_number,
                in.edition_number,
                in.master_table_version_number,
                in.data_category);
    else
        out.raw_appendf("T%02hhu%02hhu%02hhu A%03hhu%03hhu",
                in.master_table_number,
                in.edition_number,
                in.master_table_version_number,
                in.data_category,
                in.data_subcategory);''','''    out.raw_appendf("T%02u%02u%02u A%03u",
            in.master_table_number,
            in.edition_number,
            in.master_table_version_number,
            in.data_category);
    if (in.data_subcategory != 0xff)
        out.raw_appendf("%03u", in.data_subcategory);''')])
refac('c15-encode-size','C15',[(CE,'''    for (unsigned i = 0; i < subsets.size(); ++i)
    {
        DDSEncoder e(*this, i, out);
        e.run();
    }
    out.raw_append("++\\r\\r\\n", 5);

    TRACE("SEC2''','''    const size_t count = subsets.size();
    for (size_t i = 0; i != count; ++i)
    {
        DDSEncoder encoder(*this, static_cast<unsigned>(i), out);
        encoder.run();
    }
    out.raw_append("++\\r\\r\\n", 5);

    TRACE("SEC2''')])
refac('c15-count-helper','C15',[(CE,'''                ob.raw_append(" ", 1);
                ob.encode_check_digit();
                ob.raw_appendf("%04u", count);

                return count;''','''                append_count(count);
                return count;'''),(CE,'''    void define_variable(Varinfo info) override
    {''','''    void append_count(unsigned count)
    {
        ob.raw_append(" ", 1);
        ob.encode_check_digit();
        ob.raw_appendf("%0*d", 4, static_cast<int>(count));
    }

    void define_variable(Varinfo info) override
    {''')])
