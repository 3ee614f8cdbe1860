refac('bits-forward','C01',[('wreport/buffers/bufr.cc','''    /* Mask for reading data out of val */
    uint32_t mask = 1 << (n - 1);
    int i;

    for (i = 0; i < n; i++) 
    {
        pbyte <<= 1;
        pbyte |= ((val & mask) != 0) ? 1 : 0;
        val <<= 1;
        pbyte_len++;
''','''    for (int i = n - 1; i >= 0; --i)
    {
        pbyte = (pbyte << 1) | ((val >> i) & 1);
        ++pbyte_len;
''')])
refac('bits-down','C01',[('wreport/buffers/bufr.cc','''    int i;

    for (i = 0; i < n; i++) 
    {
        pbyte <<= 1;''','''    while (n-- > 0)
    {
        pbyte <<= 1;''')])
refac('flush-shift','C01',[('wreport/buffers/bufr.cc','''    while (pbyte_len < 8)
    {
        pbyte <<= 1;
        pbyte_len++;
    }

    out.append((const char*)&pbyte, 1);''','''    pbyte <<= 8 - pbyte_len;
    out += static_cast<char>(pbyte);''')])
refac('string-bytes','C01',[('wreport/buffers/bufr.cc','''    unsigned i, bi;
    bool eol = false;
    for (i = 0, bi = 0; bi < len_bits; ++i)
    {
        //TRACE("append_string:len: %d, i: %d, bi: %d, eol: %d\\n", len_bits, i, bi, (int)eol);
        if (!eol && !val[i])
            eol = true;

        /* Strings are space-padded in BUFR */
        if (len_bits - bi >= 8)
        {
            append_byte(eol ? ' ' : val[i]);
            bi += 8;
        }
        else
        {
            /* Pad with zeros if writing strings with a number of bits
             * which is not multiple of 8.  It's not worth to implement
             * writing partial bytes at the moment and it's better to fail
             * gracefully, as my understanding is that this case should
             * never happen anyway. */
            add_bits(0, len_bits - bi);
            bi = len_bits;
        }
    }''','''    unsigned left = len_bits;
    while (left >= 8)
    {
        if (*val)
            append_byte(*val++);
        else
            append_byte(' ');
        left -= 8;
    }
    if (left)
        add_bits(0, left);''')])
refac('binary-bytes','C01',[('wreport/buffers/bufr.cc','''    unsigned i, bi;
    for (i = 0, bi = 0; bi < len_bits; ++i)
    {
        /* Strings are space-padded in BUFR */
        if (len_bits - bi >= 8)
        {
            append_byte(val[i]);
            bi += 8;
        }
        else
        {
            add_bits(val[i], len_bits - bi);
            bi = len_bits;
        }
    }''','''    const unsigned full = len_bits / 8;
    for (unsigned i = 0; i < full; ++i)
        append_byte(val[i]);
    if (unsigned rest = len_bits % 8)
        add_bits(val[full], rest);''')])
refac('assign-i','C02 C03',[('wreport/var.cc','''    // Guard against overflows
    if (val < m_info->imin || val > m_info->imax)
    {
        if (options::var_silent_domain_errors)
        {
            unset();
            return;
        } else if (options::var_clamp_domain_errors) {
            if (val < m_info->imin)
                val = m_info->imin;
            else if (val > m_info->imax)
                val = m_info->imax;
            // flow continues to setting value
        } else if''','''    const bool inside = m_info->imin <= val && val <= m_info->imax;
    if (!inside)
    {
        if (options::var_silent_domain_errors)
            return unset();
        if (options::var_clamp_domain_errors) {
            val = std::max(m_info->imin, std::min(m_info->imax, (int)val));
        } else if''')])
refac('assign-d','C02 C03',[('wreport/var.cc','''    // Guard against overflows
    if (val < m_info->dmin || val > m_info->dmax)
    {
        if (options::var_silent_domain_errors)
        {
            unset();
            return;
        } else if (options::var_clamp_domain_errors) {
            if (val < m_info->dmin)
                val = m_info->dmin;
            else if (val > m_info->dmax)
                val = m_info->dmax;''','''    // Guard against overflows
    const double lo = m_info->dmin, hi = m_info->dmax;
    if (!(val >= lo && val <= hi))
    {
        if (options::var_silent_domain_errors)
        {
            unset();
            return;
        } else if (options::var_clamp_domain_errors) {
            val = val < lo ? lo : hi;''')])
refac('str-to-int','C02',[('wreport/var.cc','''    bool negative = *str == '-';
    if (negative) ++str;
    int64_t val = 0;
    while (*str)
    {
        val = val * 10 + (*str++ - '0');
        if (val > UINT32_MAX) val = UINT32_MAX;
    }
    return negative ? -val : val;''','''    int64_t sign = 1;
    if (*str == '-') { sign = -1; ++str; }
    int64_t val = 0;
    for ( ; *str; ++str)
    {
        val *= 10;
        val += *str - '0';
        val = std::min<int64_t>(val, UINT32_MAX);
    }
    return sign * val;''')])
refac('enqa-loop','C06',[('wreport/var.cc','''    for (const Var* cur = m_attrs; cur && cur->code() <= code; cur = cur->m_attrs)
        if (cur->code() == code)
            return cur;
    return nullptr;''','''    const Var* cur = m_attrs;
    while (cur && cur->code() < code)
        cur = cur->m_attrs;
    if (!cur || cur->code() != code)
        return nullptr;
    return cur;''')])
refac('enqa-full','C06',[('wreport/var.cc','''    for (const Var* cur = m_attrs; cur && cur->code() <= code; cur = cur->m_attrs)
        if (cur->code() == code)
            return cur;
    return nullptr;''','''    for (const Var* cur = m_attrs; cur; cur = cur->m_attrs)
    {
        if (cur->code() == code)
            return cur;
        if (cur->code() > code)
            break;
    }
    return nullptr;''')])
refac('unseta-loop','C06',[('wreport/var.cc','''    if (!m_attrs || m_attrs->code() > code)
        // Past the end, nothing to do
        return;
    else if (m_attrs->code() == code)
    {
        // Got the right item, unlink and delete it
        Var* old_attrs = m_attrs;
        m_attrs = m_attrs->m_attrs;
        old_attrs->m_attrs = nullptr;
        delete old_attrs;
    }
    else
        // Recursively proceed along the chain
        m_attrs->unseta(code);''','''    Var* prev = this;
    while (prev->m_attrs && prev->m_attrs->code() < code)
        prev = prev->m_attrs;
    Var* found = prev->m_attrs;
    if (!found || found->code() != code)
        return;
    prev->m_attrs = found->m_attrs;
    found->m_attrs = nullptr;
    delete found;''')])
refac('seta-loop','C06',[('wreport/var.cc','''    if (!m_attrs || m_attrs->code() > attr->code())
    {
        // Append / insert
        attr->m_attrs = m_attrs;
        m_attrs = attr.release();
    }
    else if (m_attrs->code() == attr->code())
    {
        // Replace existing
        attr->m_attrs = m_attrs->m_attrs;
        Var* old_attrs = m_attrs;
        m_attrs = attr.release();
        old_attrs->m_attrs = nullptr;
        delete old_attrs;
    }
    else
        // Recursively proceed along the chain
        m_attrs->seta(move(attr));''','''    Var** pos = &m_attrs;
    while (*pos && (*pos)->code() < attr->code())
        pos = &(*pos)->m_attrs;
    Var* old = *pos;
    if (old && old->code() == attr->code())
    {
        attr->m_attrs = old->m_attrs;
        old->m_attrs = nullptr;
        *pos = attr.release();
        delete old;
    } else {
        attr->m_attrs = old;
        *pos = attr.release();
    }''')])
refac('var-helper','C05 C04',[('wreport/var.cc','''Var::~Var()
{
    switch (m_info->type)
    {
        case Vartype::Binary:
        case Vartype::String:
            delete[] m_value.c;
            break;
        case Vartype::Integer:
        case Vartype::Decimal:
            break;
    }
    delete m_attrs;
}''','''static inline bool has_buffer(const _Varinfo& info)
{
    return info.type == Vartype::Binary || info.type == Vartype::String;
}

Var::~Var()
{
    if (has_buffer(*m_info))
        delete[] m_value.c;
    delete m_attrs;
}'''),('wreport/var.cc','''    // The old value buffer is dimensioned according to the old info
    switch (m_info->type)
    {
        case Vartype::Binary:
        case Vartype::String:
            delete[] m_value.c;
            break;
        case Vartype::Integer:
        case Vartype::Decimal:
            break;
    }
''','''    // The old value buffer is dimensioned according to the old info
    if (has_buffer(*m_info))
        delete[] m_value.c;
''')])
refac('binary-pad','C04',[('wreport/var.cc','''        memcpy(m_value.c, val, size);
        for (unsigned i = size; i < m_info->len; ++i)
            m_value.c[i] = 0;''','''        memset(m_value.c, 0, m_info->len);
        memcpy(m_value.c, val, size);''')])
refac('text-min','C04',[('wreport/var.cc','''    allocate();
    if (size < m_info->len)
    {
        strncpy(m_value.c, val, size);
        m_value.c[size] = 0;
    } else {
        strncpy(m_value.c, val, m_info->len);
        m_value.c[m_info->len] = 0;
    }
    m_isset = true;''','''    allocate();
    m_isset = true;
    const unsigned count = std::min(size, m_info->len);
    strncpy(m_value.c, val, count);
    m_value.c[count] = 0;''')])
refac('eq-order','C05',[('wreport/var.cc','''    if (code() != var.code()) return false;
    if (!value_equals(var)) return false;

    // Compare attrs
    if (!m_attrs && !var.m_attrs) return true;
    if (!m_attrs || !var.m_attrs) return false;
    return *m_attrs == *var.m_attrs;''','''    if ((m_attrs == nullptr) != (var.m_attrs == nullptr)) return false;
    if (code() != var.code() || !value_equals(var)) return false;
    return !m_attrs || *m_attrs == *var.m_attrs;''')])
refac('eq-loop','C05',[('wreport/var.cc','''    if (code() != var.code()) return false;
    if (!value_equals(var)) return false;

    // Compare attrs
    if (!m_attrs && !var.m_attrs) return true;
    if (!m_attrs || !var.m_attrs) return false;
    return *m_attrs == *var.m_attrs;''','''    const Var* a = this;
    const Var* b = &var;
    for ( ; a && b; a = a->m_attrs, b = b->m_attrs)
        if (a->code() != b->code() || !a->value_equals(*b))
            return false;
    return !a && !b;''')])
refac('move-swap','C05',[('wreport/var.cc','''            if (m_value.c) delete[] m_value.c;
            m_value.c = var.m_value.c;
            var.m_value.c = nullptr;
            var.m_isset = false;
            break;''','''            delete[] m_value.c;
            m_value.c = std::exchange(var.m_value.c, nullptr);
            var.m_isset = false;
            break;'''),('wreport/var.cc','#include <cmath>','#include <cmath>\n#include <utility>')])
