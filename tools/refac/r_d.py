BU='wreport/bulletin.cc'
refac('c16-seek-for','C16',[(BU,'''    while (got < sig_len && (c = getc(fd)) != EOF)
    {
        if (c == sig[got])
            got++;
        else
            // This can still be the first character of the signature
            got = c == sig[0] ? 1 : 0;
    }
''','''    for (;;)
    {
        if (got == sig_len)
            break;
        c = fgetc(fd);
        if (c == EOF)
            break;
        if (c != sig[got])
            got = 0;
        if (c == sig[got])
            ++got;
    }
'''),(BU,'''    if (got != sig_len)
    {
        /* End of file: return accordingly */
        return false;
    }
    return true;
''','''    return got >= sig_len;
''')])
refac('c16-seek-ptr','C16',[(BU,'''    while (got < sig_len && (c = getc(fd)) != EOF)
    {
        if (c == sig[got])
            got++;
        else
            // This can still be the first character of the signature
            got = c == sig[0] ? 1 : 0;
    }
''','''    unsigned missing = sig_len;
    while (missing && (c = getc(fd)) != EOF)
    {
        if (c == sig[sig_len - missing])
            --missing;
        else
            missing = c == sig[0] ? sig_len - 1 : sig_len;
    }
    got = sig_len - missing;
''')])
refac('c16-bufr-len','C16',[(BU,'''    uint32_t hl_length;
    memcpy(&hl_length, buf.data()+4, sizeof(uint32_t));
    int bufrlen = ntohl(hl_length) >> 8;
''','''    size_t bufrlen = 0;
    for (unsigned i = 4; i < 7; ++i)
        bufrlen = (bufrlen << 8) | (unsigned char)buf[i];
'''),(BU,'''is less than the minimum of 12", fname, bufrlen);''','''is less than the minimum of 12", fname, (int)bufrlen);'''),(BU,'''is less than the minimum of 12", bufrlen);''','''is less than the minimum of 12", (int)bufrlen);''')])
refac('c16-bufr-fread','C16',[(BU,'''    if (fread(buf.data() + 8, bufrlen - 8, 1, fd) != 1)
''','''    const size_t rest = buf.size() - 8;
    if (fread(&buf[8], 1, rest, fd) < rest)
'''),(BU,'''    if (fread(buf.data() + 4, 4, 1, fd) != 1)
''','''    if (fread(&buf[4], 1, 4, fd) != 4)
''')])
refac('c16-bufr-head','C16',[(BU,'''    buf += "BUFR";
    if (offset) *offset = ftello(fd) - 4;

    // Read the remaining 4 bytes of section 0
    buf.resize(8);
    if (fread(buf.data() + 4, 4, 1, fd) != 1)
''','''    if (offset)
    {
        off_t pos = ftello(fd);
        *offset = pos - 4;
    }

    // Read the remaining 4 bytes of section 0
    buf = "BUFR";
    buf.append(4, '\\0');
    if (fread(buf.data() + 4, 4, 1, fd) != 1)
''')])
refac('c16-crex-switch','C16',[(BU,'''            if (target[got] == '\\r' && (c == '\\n' || c == '\\r'))
                got++;
            else if (target[got] == '\\n' && (c == '\\n' || c == '\\r'))
                ;
            else if (target[got] == '\\n' && c == '7')
                got += 2;
            else if (c == target[got])
                got++;
            else if (c == '+')
                // This can still be the start of the target
                got = got == 2 ? 2 : 1;
            else
                got = 0;

            buf += (char)c;
''','''            buf.push_back(static_cast<char>(c));
            switch (c)
            {
                case '+':
                    got = got == 1 || got == 2 ? 2 : 1;
                    break;
                case '\\r':
                case '\\n':
                    got = got == 2 || got == 3 ? 3 : 0;
                    break;
                case '7':
                    if (got == 3)
                        got = 5;
                    else
                        got = got > 3 ? got + 1 : 0;
                    break;
                default:
                    got = 0;
            }
'''),(BU,'''        const char* target = "++\\r\\n7777";
''','')])
refac('c16-crex-helper','C16',[(BU,'''bool CrexBulletin::read(FILE* fd, std::string& buf, const char* fname, off_t* offset)
{''','''static bool is_newline(int c) { return c == '\\r' || c == '\\n'; }

static int match_end(const char* target, int got, int c)
{
    const char want = target[got];
    if (want == '\\r' && is_newline(c)) return got + 1;
    if (want == '\\n' && is_newline(c)) return got;
    if (want == '\\n' && c == '7') return got + 2;
    if (c == want) return got + 1;
    if (c == '+') return got == 2 ? 2 : 1;
    return 0;
}

bool CrexBulletin::read(FILE* fd, std::string& buf, const char* fname, off_t* offset)
{'''),(BU,'''            if (target[got] == '\\r' && (c == '\\n' || c == '\\r'))
                got++;
            else if (target[got] == '\\n' && (c == '\\n' || c == '\\r'))
                ;
            else if (target[got] == '\\n' && c == '7')
                got += 2;
            else if (c == target[got])
                got++;
            else if (c == '+')
                // This can still be the start of the target
                got = got == 2 ? 2 : 1;
            else
                got = 0;

            buf += (char)c;
''','''            got = match_end(target, got, c);
            buf.append(1, (char)c);
''')])
refac('c16-crex-states','C16',[(BU,'''            if (target[got] == '\\r' && (c == '\\n' || c == '\\r'))
                got++;
            else if (target[got] == '\\n' && (c == '\\n' || c == '\\r'))
                ;
            else if (target[got] == '\\n' && c == '7')
                got += 2;
            else if (c == target[got])
                got++;
            else if (c == '+')
                // This can still be the start of the target
                got = got == 2 ? 2 : 1;
            else
                got = 0;
''','''            if (c == '+')
            {
                plus = sevens || newline ? 1 : plus < 2 ? plus + 1 : 2;
                newline = false;
                sevens = 0;
            }
            else if ((c == '\\r' || c == '\\n') && plus == 2 && !sevens)
                newline = true;
            else if (c == '7' && newline)
                ++sevens;
            else
            {
                plus = sevens = 0;
                newline = false;
            }
            got = sevens == 4 ? 8 : 0;
'''),(BU,'''        const char* target = "++\\r\\n7777";
''','''        int plus = 0, sevens = 0;
        bool newline = false;
''')])
refac('c16-crex-dowhile','C16',[(BU,'''        while (got < 8 && (c = getc(fd)) != EOF)
        {''','''        while (got != target_size)
        {
            c = getc(fd);
            if (c == EOF)
                break;''')])
refac('c16-write-all','C16',[(BU,'''void CrexBulletin::write(const std::string& buf, FILE* out, const char* fname)
{
    if (fwrite(buf.data(), buf.size(), 1, out) != 1)''','''void CrexBulletin::write(const std::string& buf, FILE* out, const char* fname)
{
    const size_t written = fwrite(buf.c_str(), 1, buf.size(), out);
    if (written == 0 || written < buf.size())'''),(BU,'''    if (fputs("\\r\\r\\n", out) == EOF)''','''    if (fwrite("\\r\\r\\n", 3, 1, out) != 1)''')])
