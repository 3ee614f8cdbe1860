IN='wreport/bufr/input.cc'; DEC='wreport/bufr/decoder.cc'; ENC='wreport/bufr_encoder.cc'; INTP='wreport/bulletin/interpreter.cc'; BM='wreport/bulletin/bitmaps.cc'; SUB='wreport/subset.cc'
refac('get-bits-chunks','C01 C03',[('wreport/bufr/input.h','''            result <<= 1;
            if (pbyte & 0x80)
                result |= 1;
            pbyte <<= 1;
            pbyte_len--;
        }

        return result;''','''            result = (result << 1) | (pbyte >> 7);
            pbyte = static_cast<uint8_t>(pbyte << 1);
            --pbyte_len;
        }

        return result;''')])
refac('get-bits-bytes','C01',[('wreport/bufr/input.h','''        for (unsigned i = 0; i < n; i++)
        {
            if (pbyte_len == 0)
            {
                pbyte_len = 8;
                pbyte = data[s4_cursor++];
            }
            result <<= 1;
            if (pbyte & 0x80)
                result |= 1;
            pbyte <<= 1;
            pbyte_len--;
        }

        return result;''','''        while (n > 0)
        {
            if (pbyte_len == 0)
            {
                pbyte_len = 8;
                pbyte = data[s4_cursor++];
            }
            unsigned take = n < (unsigned)pbyte_len ? n : (unsigned)pbyte_len;
            result = (result << take) | (pbyte >> (8 - take));
            pbyte = static_cast<uint8_t>(pbyte << take);
            pbyte_len -= take;
            n -= take;
        }

        return result;''')])
refac('get-bits-check','C01',[('wreport/bufr/input.h','''        uint32_t result = 0;

        if (s4_cursor > data_len || n > (data_len - s4_cursor) * 8 + pbyte_len)
            parse_error("end of buffer while looking for %u bits of bit-packed data", n);
''','''        uint32_t result = 0;

        check_bits_left(n);
'''),('wreport/bufr/input.h','''    /**
     * Get the integer value of the next 'n' bits''','''    void check_bits_left(unsigned n) const
    {
        if (s4_cursor > data_len || n > (data_len - s4_cursor) * 8 + pbyte_len)
            parse_error("end of buffer while looking for %u bits of bit-packed data", n);
    }

    /**
     * Get the integer value of the next 'n' bits'''),('wreport/bufr/input.h','''    void skip_bits(unsigned n)
    {
        if (s4_cursor > data_len || n > (data_len - s4_cursor) * 8 + pbyte_len)
            parse_error("end of buffer while looking for %u bits of bit-packed data", n);
''','''    void skip_bits(unsigned n)
    {
        check_bits_left(n);
''')])
refac('read-string-strip','C04 C11',[(IN,'''        str[len] = 0;

        /* Convert space-padding into zero-padding */
        for (; len > 1 && (str[len - 1] == 0 || isspace(str[len - 1]));
                --len)
            str[len - 1] = 0;''','''        /* Convert space-padding into zero-padding */
        str[len] = 0;
        while (len > 1)
        {
            const char last = str[len - 1];
            if (last != 0 && !isspace(last))
                break;
            str[--len] = 0;
        }''')])
refac('read-string-loop','C04',[(IN,'''    int toread = bit_len;
    bool missing = true;
    len = 0;

    while (toread > 0)
    {
        int count = toread > 8 ? 8 : toread;
        uint32_t bitval = get_bits(count);
        /* Check that the string is not all 0xff, meaning missing value */
        if (bitval != 0xff && bitval != 0)
            missing = false;
        str[len++] = bitval;
        toread -= count;
    }

    if (!missing)
    {
        str[len] = 0;''','''    bool missing = true;
    len = 0;

    for (int toread = bit_len; toread > 0; toread -= 8)
    {
        uint32_t bitval = get_bits(std::min(toread, 8));
        /* Check that the string is not all 0xff, meaning missing value */
        missing = missing && (bitval == 0xff || bitval == 0);
        str[len] = bitval;
        ++len;
    }

    if (!missing)
    {
        str[len] = 0;''')])
refac('read-binary-for','C04',[(IN,'''    while (toread > 0)
    {
        unsigned count = toread > 8 ? 8 : toread;
        uint32_t bitval = get_bits(count);
        /* Check that the value is not all ones, meaning missing value. The
         * last byte may have less than 8 bits */
        if (bitval != (1u << count) - 1)
            missing = false;
        buf[len++] = bitval;
        toread -= count;
    }
''','''    for (unsigned count; toread > 0; toread -= count)
    {
        count = std::min(toread, 8u);
        uint32_t bitval = get_bits(count);
        missing &= bitval == 0xffu >> (8 - count);
        buf[len++] = static_cast<unsigned char>(bitval);
    }
''')])
refac('number-helper','C03 C11',[(IN,'''void Input::decode_number(Var& dest)
{
    Varinfo info = dest.info();
''','''static bool can_be_missing(Varcode code)
{
    if (WR_VAR_F(code) != 0 || WR_VAR_X(code) != 31)
        return true;
    const unsigned y = WR_VAR_Y(code);
    return !(y <= 2 || y == 11 || y == 12);
}

void Input::decode_number(Var& dest)
{
    Varinfo info = dest.info();
'''),(IN,'''    bool missing = false;
    if (WR_VAR_X(info->code) == 31 && WR_VAR_F(info->code) == 0)
        switch (WR_VAR_Y(info->code))
        {
            case 0:
            case 1:
            case 2:
            case 11:
            case 12:
                break;
            default:
                missing = (val == all_ones(info->bit_len));
        }
    else
        missing = (val == all_ones(info->bit_len));
''','''    const bool missing = can_be_missing(info->code) && val == all_ones(info->bit_len);
''')])
refac('comp-number-early','C03 C11',[(IN,'''    // Check if it's all 1s: in that case it's a missing value
    if (base == all_ones(info->bit_len) || diff == all_ones(diffbits))
    {
        /* Missing value */
        //TRACE("datasec:decode_b_num:decoded[%d] as missing\\n", i);
        dest.unset();
    } else {
        // Compute the value for this subset
        uint32_t newval = base + diff;
        if (newval == all_ones(info->bit_len))
            dest.unset();
        else
        {
            double dval = info->decode_binary(newval);
            TRACE("Input:decode_compressed_number:decoded diffbits %u %u+%u=%u->%f %01d%02d%03d %s\\n",
                    diffbits, base, diff, newval, dval, WR_VAR_FXY(info->code), info->unit);

            /* Create the new Var */
            dest.setd(dval);
        }
    }''','''    const uint32_t missing_val = all_ones(info->bit_len);
    const uint32_t newval = base + diff;
    if (base == missing_val || newval == missing_val || diff == all_ones(diffbits))
    {
        dest.unset();
        return;
    }
    dest.setd(info->decode_binary(newval));''')])
refac('all-ones','C01 C03 C11',[(IN,'''static inline uint32_t all_ones(int bitlen)
{
    return ((1 << (bitlen - 1))-1) | (1 << (bitlen - 1));
}''','''static inline uint32_t all_ones(int bitlen)
{
    if (bitlen == 0) return 0xffffffffu;
    return 0xffffffffu >> (32 - bitlen);
}''')])
refac('header-reorder','C07',[(DEC,'''    // subcentre in sec1[4]
    out.originating_subcentre = in.read_byte(1, 4);
    // centre in sec1[5]
    out.originating_centre = in.read_byte(1, 5);
''','''    out.originating_centre = in.read_byte(1, 5);
    out.originating_subcentre = in.read_byte(1, 4);
'''),(DEC,'''    out.rep_year = in.read_byte(1, 12);
    // Fix the century with a bit of euristics
    if (out.rep_year > 50)
        out.rep_year += 1900;
    else
        out.rep_year += 2000;
''','''    const unsigned yy = in.read_byte(1, 12);
    out.rep_year = yy + (yy > 50 ? 1900 : 2000);
''')])
refac('header-desc','C07',[(DEC,'''    for (unsigned i = 0; i < descriptor_count; i++)
        out.datadesc.push_back((Varcode)in.read_number(3, 7 + i * 2, 2));''','''    for (unsigned pos = 7; pos < 7 + descriptor_count * 2; pos += 2)
    {
        Varcode code = static_cast<Varcode>((in.read_byte(3, pos) << 8) | in.read_byte(3, pos + 1));
        out.datadesc.push_back(code);
    }''')])
refac('header-opt','C07',[(DEC,'''static inline uint32_t all_ones(int bitlen)
{
    return ((1 << (bitlen - 1))-1) | (1 << (bitlen - 1));
}
''','''static inline uint32_t all_ones(int bitlen)
{
    return ((1 << (bitlen - 1))-1) | (1 << (bitlen - 1));
}

static void read_optional(Input& in, BufrBulletin& out)
{
    in.check_available_section_data(2, 0, 3, "section 2 of BUFR message (optional section length)");
    unsigned s2_length = in.read_number(2, 0, 3);
    in.check_available_section_data(2, 0, s2_length, "section 2 of BUFR message (optional section)");
    if (s2_length < 4)
        error_consistency::throwf("Optional section length is %u but it must be at least 4", s2_length);
    out.optional_section.assign((const char*)in.data + in.sec[2] + 4, s2_length - 4);
}
'''),(DEC,'''    if (optional_section_length)
    {
        in.check_available_section_data(2, 0, 3, "section 2 of BUFR message (optional section length)");
        unsigned s2_length = in.read_number(2, 0, 3);
        in.check_available_section_data(2, 0, s2_length, "section 2 of BUFR message (optional section)");
        if (s2_length < 4)
            error_consistency::throwf("Optional section length is %u but it must be at least 4", s2_length);
        out.optional_section = std::string((const char*)in.data + in.sec[2] + 4, s2_length - 4);
    }
''','''    if (optional_section_length)
        read_optional(in, out);
''')])
refac('data-range-for','C07',[(DEC,'''        for (unsigned i = 0; i < out.subsets.size(); ++i)
        {
            UncompressedDecoderTarget target(in, out.obtain_subset(i));''','''        for (auto& subset: out.subsets)
        {
            UncompressedDecoderTarget target(in, subset);''')])
refac('data-helper','C07',[(DEC,'''void Decoder::decode_data()
{''','''static void run_decoder(BufrBulletin& out, DecoderTarget& target, FILE* verbose_output, bool skip_missing)
{
    std::unique_ptr<DataSectionDecoder> dec;
    if (verbose_output)
        dec.reset(new VerboseDataSectionDecoder(out, target, verbose_output));
    else
        dec.reset(new DataSectionDecoder(out, target));
    dec->associated_field.skip_missing = skip_missing;
    dec->run();
}

void Decoder::decode_data()
{'''),(DEC,'''        CompressedDecoderTarget target(in, out);
        std::unique_ptr<DataSectionDecoder> dec;
        if (verbose_output)
            dec.reset(new VerboseDataSectionDecoder(out, target, verbose_output));
        else
            dec.reset(new DataSectionDecoder(out, target));
        dec->associated_field.skip_missing = !conf_add_undef_attrs;
        dec->run();
''','''        CompressedDecoderTarget target(in, out);
        run_decoder(out, target, verbose_output, !conf_add_undef_attrs);
'''),(DEC,'''            UncompressedDecoderTarget target(in, out.obtain_subset(i));
            std::unique_ptr<DataSectionDecoder> dec;
            if (verbose_output)
                dec.reset(new VerboseDataSectionDecoder(out, target, verbose_output));
            else
                dec.reset(new DataSectionDecoder(out, target));
            dec->associated_field.skip_missing = !conf_add_undef_attrs;
            dec->run();
''','''            UncompressedDecoderTarget target(in, out.obtain_subset(i));
            run_decoder(out, target, verbose_output, !conf_add_undef_attrs);
''')])
refac('enc-sec2','C08',[(ENC,'''        bool pad = in.optional_section.size() % 2 == 1;

        // Length of section
        if (pad)
            out.add_bits(static_cast<uint32_t>(4 + in.optional_section.size() + 1), 24);
        else
            out.add_bits(static_cast<uint32_t>(4 + in.optional_section.size()), 24);
''','''        const size_t size = in.optional_section.size();
        const unsigned pad = size & 1;

        // Length of section
        out.add_bits(static_cast<uint32_t>(4 + size + pad), 24);
''')])
refac('enc-sec3','C08',[(ENC,'''    for (unsigned i = 0; i < in.datadesc.size(); ++i)
        out.append_short(in.datadesc[i]);
''','''    for (const auto& code: in.datadesc)
        out.append_short(code);
''')])
refac('enc-length','C08',[(ENC,'''struct Encoder
{''','''static void patch_length(std::string& buf, size_t pos, size_t len)
{
    buf[pos] = static_cast<char>((len >> 16) & 0xff);
    buf[pos + 1] = static_cast<char>((len >> 8) & 0xff);
    buf[pos + 2] = static_cast<char>(len & 0xff);
}

struct Encoder
{'''),(ENC,'''        uint32_t val = htonl(static_cast<uint32_t>(out.out.size() - sec[4]));
        memcpy(out.out.data() + sec[4], ((char*)&val) + 1, 3);
''','''        patch_length(out.out, sec[4], out.out.size() - sec[4]);
'''),(ENC,'''        uint32_t val = htonl(static_cast<uint32_t>(out.out.size()));
        memcpy(out.out.data() + 4, ((char*)&val) + 1, 3);
''','''        patch_length(out.out, 4, out.out.size());
''')])
refac('enc-date','C08',[(ENC,'''    // Year of century
    out.append_short(in.rep_year);
    // Month
    out.append_byte(in.rep_month);
    // Day
    out.append_byte(in.rep_day);
    // Hour
    out.append_byte(in.rep_hour);
    // Minute
    out.append_byte(in.rep_minute);
    // Second
    out.append_byte(in.rep_second);
''','''    out.append_short(in.rep_year);
    append_time();
    // Second
    out.append_byte(in.rep_second);
'''),(ENC,'''    // Month
    out.append_byte(in.rep_month);
    // Day
    out.append_byte(in.rep_day);
    // Hour
    out.append_byte(in.rep_hour);
    // Minute
    out.append_byte(in.rep_minute);
    // Century
''','''    append_time();
    // Century
'''),(ENC,'''    void encode_sec1ed3();
''','''    void append_time()
    {
        for (auto v: { in.rep_month, in.rep_day, in.rep_hour, in.rep_minute })
            out.append_byte(v);
    }
    void encode_sec1ed3();
''')])
refac('interp-if','C09',[(INTP,'''            case 0: b_variable(cur); break;
            case 1: {''','''            case 0:
                b_variable(cur);
                continue;
            case 1: {''')])
refac('interp-varinfo','C09',[(INTP,'''    int scale = peek->scale;
    if (numeric && c_scale_change)
    {
        TRACE("get_varinfo:applying %d scale change\\n", c_scale_change);
        scale += c_scale_change;
    }

    int bit_len = peek->bit_len;
    if (peek->type == Vartype::String && c_string_len_override)
    {
        TRACE("get_varinfo:overriding string to %d bytes\\n", c_string_len_override);
        bit_len = c_string_len_override * 8;
    }
    else if (numeric && c_width_change)
    {
        TRACE("get_varinfo:applying %d width change\\n", c_width_change);
        bit_len += c_width_change;
    }
''','''    int scale = peek->scale;
    int bit_len = peek->bit_len;
    if (numeric)
    {
        scale += c_scale_change;
        bit_len += c_width_change;
    }
    else if (peek->type == Vartype::String && c_string_len_override)
        bit_len = c_string_len_override * 8;
''')])
refac('interp-repl','C09',[(INTP,'''    for (unsigned i = 0; i < count; ++i)
    {
        opcode_stack.push(ops);''','''    unsigned i = 0;
    while (i != count)
    {
        opcode_stack.push(ops);'''),(INTP,'''        run_r_repetition(i, count);
        opcode_stack.pop();''','''        run_r_repetition(i++, count);
        opcode_stack.pop();''')])
refac('interp-bvar','C09',[(INTP,'''    if (c03_refval_override_bits)
    {
        define_c03_refval_override(code);
        TRACE("C03 reference value override for %01d%02d%03d (%u bits) read as %d\\n",
                WR_VAR_FXY(code), c03_refval_override_bits, c03_refval_overrides[code]);
    } else {
        Varinfo info = get_varinfo(code);''','''    if (c03_refval_override_bits)
        return define_c03_refval_override(code);
    {
        Varinfo info = get_varinfo(code);''')])
refac('interp-change','C09',[(INTP,'''    TRACE("C DATA %01d%02d%03d\\n", WR_VAR_FXY(code));
    switch (WR_VAR_X(code))
    {
        case 1: {''','''    TRACE("C DATA %01d%02d%03d\\n", WR_VAR_FXY(code));
    const int y = WR_VAR_Y(code);
    const int offset = y == 0 ? 0 : y - 128;
    switch (WR_VAR_X(code))
    {
        case 1: {'''),(INTP,'''            int change = WR_VAR_Y(code) ? WR_VAR_Y(code) - 128 : 0;
            TRACE("Set width change from %d to %d\\n", c_width_change, change);
            c_width_change = change;
            break;''','''            c_width_change = offset;
            break;'''),(INTP,'''            int change = WR_VAR_Y(code) ? WR_VAR_Y(code) - 128 : 0;
            TRACE("Set scale change from %d to %d\\n", c_scale_change, change);
            c_scale_change = change;
''','''            c_scale_change = offset;
''')])
refac('bitmap-ctor','C10',[(BM,'''    while (true)
    {
        --b_cur;
        --s_cur;
        while (WR_VAR_F(subset[s_cur].code()) != 0)
        {
            if (s_cur == 0) throw error_consistency("bitmap refers to variables before the start of the subset");
            --s_cur;
        }

        if (bitmap.enqc()[b_cur] == '+')
            refs.push_back(s_cur);

        if (b_cur == 0)
            break;
        if (s_cur == 0)
            throw error_consistency("bitmap refers to variables before the start of the subset");
    }
''','''    for ( ; b_cur > 0; --b_cur)
    {
        do {
            if (s_cur == 0) throw error_consistency("bitmap refers to variables before the start of the subset");
            --s_cur;
        } while (WR_VAR_F(subset[s_cur].code()) != 0);

        if (bitmap.enqc()[b_cur - 1] == '+')
            refs.push_back(s_cur);
    }
''')])
refac('bitmap-next','C10',[(BM,'''    unsigned res = current->next();
    if (current->eob())
    {
        delete last;
        last = current;
        current = nullptr;
    }
    return res;
}
''','''    unsigned res = current->next();
    if (!current->eob())
        return res;
    std::swap(last, current);
    delete current;
    current = nullptr;
    return res;
}
''')])
refac('sub-dpb','C11',[(SUB,'''    for (src = 0, dst = 0; src < this->size() && dst < size; ++dst, ++src)
    {
        // Skip extra, special vars
        while (src < this->size() && WR_VAR_F((*this)[src].code()) != 0)
            ++src;

        // No more variables to describe
        if (src == this->size())
            break;

        // Check if the variable has the attribute we want
        if ((*this)[src].enqa(attr) == NULL)
            bitmap[dst] = '-';
		else
		{
			bitmap[dst] = '+';
			++count;
		}
	}
''','''    for (src = 0, dst = 0; src < this->size() && dst < size; ++src)
    {
        const Var& var = (*this)[src];
        // Skip extra, special vars
        if (WR_VAR_F(var.code()) != 0)
            continue;

        const bool has_attr = var.enqa(attr) != nullptr;
        bitmap[dst++] = has_attr ? '+' : '-';
        if (has_attr) ++count;
    }
''')])
refac('enc-bitmap','C11',[(ENC,'''        for (unsigned i = 0; i < bitmap_size; ++i)
            ob.add_bits(var.enqc()[i] == '+' ? 0 : 1, 1);
''','''        const char* bits = var.enqc();
        for (unsigned left = bitmap_size; left > 0; --left, ++bits)
            ob.add_bits(*bits != '+', 1);
''')])
refac('enc-ref','C11',[(ENC,'''        bool found = false;
        int bit_ref = 0;
        for (const auto& var: current_subset)
        {
            Varinfo info = var.info();
            if (info->code == code)
            {
                bit_ref = info->bit_ref;
                found = true;
                break;
            }
        }

        if (!found)
        {
            // If not found, take the default
            Varinfo info = current_subset.tables->btable->query(code);
            bit_ref = info->bit_ref;
        }

''','''        Varinfo found = nullptr;
        for (size_t i = 0; i < current_subset.size(); ++i)
            if (current_subset[i].code() == code)
            {
                found = current_subset[i].info();
                break;
            }
        if (!found)
            // If not found, take the default
            found = current_subset.tables->btable->query(code);
        const int bit_ref = found->bit_ref;
''')])
refac('dec-refval','C11',[(DEC,'''    uint32_t sign_bit = 1 << (bits - 1);

    if (res & (1 << (bits - 1)))
        return -(res & ~sign_bit);
    else
        return res;''','''    const uint32_t sign_bit = 1u << (bits - 1);
    const int magnitude = static_cast<int>(res & (sign_bit - 1));
    return (res & sign_bit) ? -magnitude : magnitude;''')])
refac('dec-uniform','C11',[(DEC,'''    Var var = decode_uniform_b_value(info);
    TRACE(" define_attribute adding var %01d%02d%03d %s as attribute to %01d%02d%03d\\n",
            WR_VAR_FXY(var.code()), var.enqc(), WR_VAR_FXY(out[pos].code()));
    if (!var.isset())
        return;
    out[pos].seta(std::move(var));''','''    std::unique_ptr<Var> attr(new Var(decode_uniform_b_value(info)));
    if (attr->isset())
        out[pos].seta(std::move(attr));''')])
refac('dec-chars','C11',[(DEC,'''    std::string buf;
    buf.resize(info->len);
    TRACE("decode_c_data:character data %d long\\n", info->len);
    for (unsigned i = 0; i < info->len; ++i)
    {
        uint32_t bitval = in.get_bits(8);
        TRACE("decode_c_data:decoded character %d %c\\n", (int)bitval, (char)bitval);
        buf[i] = bitval;
    }
''','''    std::string buf(info->len, 0);
    for (char& c: buf)
        c = static_cast<char>(in.get_bits(8));
''')])
refac('dec-all','C11',[(DEC,'''    Var res(decode_uniform_b_value(info));
    for (unsigned i = 0; i < subset_count; ++i)
        out.subsets[i].store_variable(res);
''','''    const Var res = decode_uniform_b_value(info);
    for (Subset& subset: out.subsets)
        subset.store_variable(res);
''')])
