#include "text.h"
#include <cerrno>
#include <ctime>
#include "base64.h"
#include "bytearray.h"
#include "charstr.h"
#include "date.h"
#include "float.h"
#include "fsalloc.h"
#include "hashtable.h"
#include "integer.h"
#include "list.h"

// ---------------------------------------------------------------- UTF-8 ---
int ref_utf8(const char *s, size_t n, int *cp)
{
    const u8 *p = (const u8 *) s;
    if (n < 1)
        return 0;
    int len, c;
    if (p[0] < 0x80) {
        len = 1;
        c = p[0];
    } else if (p[0] >= 0xc2 && p[0] <= 0xdf) {
        len = 2;
        c = p[0] & 0x1f;
    } else if (p[0] >= 0xe0 && p[0] <= 0xef) {
        len = 3;
        c = p[0] & 0x0f;
    } else if (p[0] >= 0xf0 && p[0] <= 0xf4) {
        len = 4;
        c = p[0] & 0x07;
    } else
        return 0;
    if ((size_t) len > n)
        return 0;
    for (int i = 1; i < len; i++) {
        if (p[i] < 0x80 || p[i] > 0xbf)
            return 0;
        c = c << 6 | (p[i] & 0x3f);
    }
    static const int least[] = {0, 0, 0x80, 0x800, 0x10000};
    if (c < least[len] || c > 0x10ffff || (c >= 0xd800 && c <= 0xdfff))
        return 0;
    if (cp)
        *cp = c;
    return len;
}
std::string ref_utf8_encode(int cp)
{
    std::string s;
    if (cp < 0x80)
        s += (char) cp;
    else if (cp < 0x800) {
        s += (char) (0xc0 + cp / 64);
        s += (char) (0x80 + cp % 64);
    } else if (cp < 0x10000) {
        s += (char) (0xe0 + cp / 4096);
        s += (char) (0x80 + cp / 64 % 64);
        s += (char) (0x80 + cp % 64);
    } else {
        s += (char) (0xf0 + cp / 262144);
        s += (char) (0x80 + cp / 4096 % 64);
        s += (char) (0x80 + cp / 64 % 64);
        s += (char) (0x80 + cp % 64);
    }
    return s;
}
bool ref_utf8_valid(const std::string &s)
{
    for (size_t i = 0; i < s.size();) {
        int n = ref_utf8(s.data() + i, s.size() - i, nullptr);
        if (!n)
            return false;
        i += n;
    }
    return true;
}
std::string ref_sanitize(const std::string &s)
{
    std::string o;
    for (size_t i = 0; i < s.size();) {
        int n = ref_utf8(s.data() + i, s.size() - i, nullptr);
        if (n)
            o.append(s, i, n);
        else {
            o += "\xef\xbf\xbd";
            n = 1;
        }
        i += n;
    }
    return o;
}

// --------------------------------------------------------------- Base64 ---
static const char B64[] =
    "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";
std::string ref_b64_encode(const std::string &s, char p62, char p63)
{
    auto ch = [&](int v) { return v == 62 ? p62 : v == 63 ? p63 : B64[v]; };
    std::string o;
    for (size_t i = 0; i < s.size(); i += 3) {
        size_t k = std::min<size_t>(3, s.size() - i);
        u32 b = 0;
        for (size_t j = 0; j < 3; j++)
            b = b << 8 | (j < k ? (u8) s[i + j] : 0);
        o += ch(b >> 18 & 63);
        o += ch(b >> 12 & 63);
        o += k > 1 ? ch(b >> 6 & 63) : '=';
        o += k > 2 ? ch(b & 63) : '=';
    }
    return o;
}
RefVerdict ref_b64_decode(const std::string &t, char p62, char p63, bool wsp,
                          std::string *out)
{
    std::string s = t.substr(0, t.find('\0'));
    auto white = [](char c) {
        return c == ' ' || c == '\t' || c == '\n' || c == '\f' || c == '\r';
    };
    std::vector<int> v;
    size_t i = 0;
    for (; i < s.size() && s[i] != '='; i++) {
        char c = s[i];
        if (c == p62)
            v.push_back(62);
        else if (c == p63)
            v.push_back(63);
        else if ((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') ||
                 (c >= '0' && c <= '9'))
            v.push_back(strchr(B64, c) - B64);
        else if (wsp && white(c))
            ;
        else
            return REF_REFUSE;
    }
    out->clear();
    u32 bits = 0;
    int nb = 0;
    for (int x : v) {
        bits = bits << 6 | x;
        nb += 6;
        if (nb >= 8) {
            nb -= 8;
            *out += (char) (bits >> nb & 0xff);
            bits &= (1u << nb) - 1;
        }
    }
    if (v.size() % 4 == 1 || bits)
        return REF_REFUSE;
    size_t need = v.size() % 4 == 2 ? 2 : v.size() % 4 == 3 ? 1 : 0;
    size_t got = 0;
    bool gap = false;
    for (; i < s.size(); i++) {
        if (s[i] == '=') {
            if (got && white(s[i - 1]))
                gap = true;
            got++;
        } else if (!(wsp && white(s[i])))
            return REF_REFUSE;
    }
    if (got != need)
        return REF_REFUSE;
    return gap ? REF_ANY : REF_OK;
}

// ------------------------------------------------------------------ URL ---
bool ref_url_decode(const std::string &s, bool plus, std::string *out)
{
    auto hexv = [](char c) {
        return c >= '0' && c <= '9' ? c - '0'
            : c >= 'a' && c <= 'f' ? c - 'a' + 10
            : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
    };
    out->clear();
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] == '%') {
            if (i + 2 >= s.size() || hexv(s[i + 1]) < 0 || hexv(s[i + 2]) < 0)
                return false;
            *out += (char) (hexv(s[i + 1]) * 16 + hexv(s[i + 2]));
            i += 2;
        } else
            *out += s[i] == '+' && plus ? ' ' : s[i];
    }
    return true;
}
bool ref_url_byte(u8 b, std::string *out)
{
    // the list in the header and the table disagree on these three
    if (b == ']' || b == '}' || b == '"')
        return false;
    if (b == ' ')
        *out = "+";
    else if ((b >= '0' && b <= '9') || (b >= 'a' && b <= 'z') ||
             (b >= 'A' && b <= 'Z') || (b && strchr("-./<>\\^_`{|~", b)))
        *out = std::string(1, (char) b);
    else {
        char t[8];
        snprintf(t, sizeof t, "%%%02X", b);
        *out = t;
    }
    return true;
}

// ------------------------------------------------------------ transport ---
struct Pipe {
    const std::string *text;
    size_t pos = 0;
    Rng rng;
    bool faulty = false;
};
static ssize_t pipe_read(void *obj, void *buf, size_t n)
{
    callback_point();
    Pipe *p = (Pipe *) obj;
    size_t left = p->text->size() - p->pos;
    if (p->faulty && p->rng.chance(1, 8)) {
        int which = p->rng.below(2);
        fired(which ? F_EAGAIN : F_EINTR);
        errno = which ? EAGAIN : EINTR;
        return -1;
    }
    size_t k = std::min(n, left);
    if (k > 1 && p->faulty && p->rng.chance(1, 2)) {
        k = 1 + p->rng.below(k - 1);
        fired(F_SHORT_READ);
    }
    if (k)
        memcpy(buf, p->text->data() + p->pos, k);
    p->pos += k;
    return k;
}
std::string deliver(const std::string &sent, const Op &op, bool *intact)
{
    std::string t = sent;
    for (auto &f : op.f) {
        size_t n = t.size();
        // negative positions count from the end
        auto place = [&](size_t m) -> size_t {
            if (!m)
                return 0;
            u64 k = f.n < 0 ? (u64) -f.n : (u64) f.n;
            return f.n < 0 ? m - 1 - (k - 1) % m : k % m;
        };
        size_t at = place(n);
        if (f.kind == F_INSERT) {
            at = place(n + 1);
            t.insert(at, 1, (char) f.param);
        } else if (f.kind == F_BITFLIP && n)
            t[at] = (char) (t[at] ^ (f.param & 0xff ? f.param & 0xff : 1));
        else if (f.kind == F_DROP && n)
            t.erase(at, 1 + (u64) f.param % 5);
        else if (f.kind == F_DUP && n)
            t.insert(at, t.substr(at, 1 + (u64) f.param % 5));
        else if (f.kind == F_SWAP && n > 1) {
            size_t k = 1 + (u64) f.param % 6;
            std::string a = t.substr(at, k);
            t.erase(at, k);
            t.insert(std::min(at + 1 + (u64) f.param / 6 % 8, t.size()), a);
        } else if (f.kind == F_TRUNC && n)
            t.erase(at);
        else
            continue;
        fired(f.kind);
        note_nontrivial();
    }
    *intact = t == sent;
    if (op.arg(7)) { // carried through a byte array
        Pipe p;
        p.text = &t;
        p.rng = Rng(op.arg(7));
        p.faulty = true;
        byte_array_t *b = make_byte_array(t.size() + 1 + op.arg(7) % 40);
        for (int idle = 0; p.pos < t.size() && idle < 4000; idle++) {
            size_t chunk = 1 + p.rng.below(t.size() > 10000 ? 4000
                                           : p.rng.chance(1, 2) ? 8 : 60);
            byte_array_append_stream(b, pipe_read, &p, chunk);
        }
        size_t n = byte_array_size(b);
        chk_read(byte_array_data(b), n + 1, "received text");
        std::string got((const char *) byte_array_data(b), n);
        destroy_byte_array(b);
        MODEL(got == t, "transport", "received %zu bytes of %zu through a byte "
              "array, or other bytes", got.size(), t.size());
        t = got;
    }
    return t;
}
void gen_damage(Op &o, Rng &r, const char *specials, size_t ns)
{
    int n = r.below(10);
    n = n < 3 ? 0 : n < 8 ? 1 : n < 9 ? 2 : 3;
    while (n--) {
        // positions near the end are the interesting ones: take some from there
        i64 pos = r.chance(1, 2) ? (i64) r.below(1 << 20) : -1;
        Fault f{0, pos, (i64) r.below(256)};
        f.kind = r.pick<int>({F_BITFLIP, F_BITFLIP, F_DROP, F_DUP, F_SWAP,
                              F_TRUNC, F_INSERT, F_INSERT});
        if (f.kind == F_INSERT && ns && r.chance(3, 4))
            f.param = (u8) specials[r.below(ns)];
        if (f.kind == F_BITFLIP && r.chance(1, 2))
            f.param = 1 << r.below(8);
        if (pos < 0) // counted from the end: see near_end()
            f.n = -(i64) r.range(1, 6);
        o.f.push_back(f);
    }
}

// ------------------------------------------------------------ generators --
static const int CPS[] = {
    0x20, 0x41, 0x61, 0x7e, 0x7f, 0x80, 0xa0, 0xc0, 0xc5, 0xe4, 0xf6, 0xff, 0x100,
    0x130, 0x131, 0x17f, 0x1c4, 0x1e9, 0x212b, 0x300, 0x301, 0x307, 0x308, 0x323,
    0x327, 0x345, 0x390, 0x3b1, 0x3b9, 0x3c2, 0x3c3, 0x430, 0x5d0, 0x5bc, 0x5c1,
    0x627, 0x7ff, 0x800, 0x915, 0x93c, 0x958, 0xb47, 0xdd9, 0xf73, 0xfff, 0x1100,
    0x1112, 0x1161, 0x1175, 0x11a7, 0x11a8, 0x11c2, 0x1e69, 0x1e9b, 0x1f82, 0x1fb7,
    0x200b, 0x200d, 0x2010, 0x2028, 0x2126, 0x2260, 0x2adc, 0x2f00, 0x3001, 0x3002,
    0x3042, 0x304c, 0x30ab, 0x30ac, 0x3099, 0x4e2d, 0xac00, 0xac01, 0xac1b, 0xac1c,
    0xd7a3, 0xd7a4, 0xd7ff, 0xe000, 0xf900, 0xfa2d, 0xfb1d, 0xfb2c, 0xfb4e, 0xfdfa,
    0xfe0f, 0xfeff, 0xff0e, 0xff21, 0xff61, 0xfffd, 0xfffe, 0xffff, 0x10000,
    0x1109a, 0x110ba, 0x11131, 0x1d15e, 0x1d160, 0x1d400, 0x1f600, 0x20000, 0x2f800,
    0x2fa1d, 0xe0001, 0xe0100, 0xf0000, 0x10fffe, 0x10ffff};
int rand_codepoint(Rng &r)
{
    for (;;) {
        int c;
        switch (r.below(8)) {
            case 0: c = r.below(0x80); break;
            case 1: c = r.below(0x800); break;
            case 2: c = r.below(0x10000); break;
            case 3: c = r.below(0x110000); break;
            case 4: c = 0xac00 + r.below(11172); break;
            case 5: c = 0x300 + r.below(0x70); break;
            default: c = CPS[r.below(sizeof CPS / sizeof *CPS)];
        }
        if (c >= 0xd800 && c <= 0xdfff)
            continue;
        return c ? c : 1;
    }
}
std::string rand_unicode(Rng &r, size_t maxcp, bool damage)
{
    std::string s;
    size_t n = r.below(maxcp + 1);
    for (size_t i = 0; i < n; i++) {
        s += ref_utf8_encode(rand_codepoint(r));
        if (damage && r.chance(1, 6)) {
            static const char *bad[] = {
                "\x80", "\xbf", "\xc0\x80", "\xc1\xbf", "\xe0\x80\x80",
                "\xe0\x9f\xbf", "\xf0\x80\x80\x80", "\xf0\x8f\xbf\xbf",
                "\xed\xa0\x80", "\xed\xbf\xbf", "\xf4\x90\x80\x80",
                "\xf5\x80\x80\x80", "\xf8\x88\x80\x80\x80", "\xff", "\xfe",
                "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xe2\x28\xa1",
                "\xf0\x28\x8c\xbc", "\xc3\x41", "\xf7\xbf\xbf\xbf", "\xc2",
                "\xdf", "\xef\xbf", "\xf4\x8f\xbf", "\xe0\xa0", "\xf1"};
            if (r.chance(1, 5)) {
                char c = (char) (0x80 + r.below(128));
                s += c;
            } else
                s += bad[r.below(sizeof bad / sizeof *bad)];
        }
    }
    if (damage && !s.empty() && r.chance(1, 3))
        s.erase(r.below(s.size()));
    return s;
}
std::string rand_text(Rng &r, int style, size_t n)
{
    std::string s;
    static const char url[] = "%+ /?&=abcXYZ019-._~<>\\^`{|}]\"#\x7f";
    while (s.size() < n)
        switch (style) {
            case 0: s += (char) (1 + r.below(255)); break;
            case 1: s += (char) (32 + r.below(95)); break;
            case 2: s += url[r.below(sizeof url - 1)]; break;
            case 3: s += r.pick<char>({',', ' ', 'a', 'b', '\t', '\n', ';'}); break;
            default: s += (char) r.below(256);
        }
    return s;
}
static std::string with_marks(Rng &r)
{
    std::string s = ref_utf8_encode(rand_codepoint(r));
    int n = r.chance(1, 4) ? r.range(80, 130) : r.range(0, 30);
    while (n--)
        s += ref_utf8_encode(r.pick<int>({0x300, 0x301, 0x308, 0x323, 0x327, 0x345,
                                          0x5bc, 0x93c, 0x3099}));
    s += ref_utf8_encode(rand_codepoint(r));
    return s;
}
void lengthen(std::string &s, size_t n)
{
    std::string piece = s + "a"; // no endless run of combining marks
    while (piece.size() > 1 && s.size() < n)
        s += piece;
}
std::string unicode_for(Rng &r)
{
    switch (r.below(6)) {
        case 0: return with_marks(r);
        case 1: return rand_unicode(r, 6, true);
        case 2: { // Hangul, whole and in parts
            std::string s;
            for (int n = r.below(10); n > 0; n--)
                s += ref_utf8_encode(r.pick<int>(
                    {(int) (0xac00 + r.below(11172)), (int) (0x1100 + r.below(20)),
                     (int) (0x1161 + r.below(22)), (int) (0x11a7 + r.below(29)), 0x41}));
            return s;
        }
        case 3: return rand_unicode(r, 40, false);
        default: return rand_unicode(r, 8, false);
    }
}
std::string rand_hostname(Rng &r)
{
    std::string s;
    if (r.chance(1, 16))
        return unicode_for(r);
    int labels = r.chance(1, 8) ? r.range(4, 12) : r.range(1, 4);
    if (r.chance(1, 6)) {
        // near the limit of the whole name: many labels, each much longer
        // encoded than not, up to some target length
        int target = r.range(236, 262), n = 0;
        while (n < target) {
            int room = target - n, len;
            if (room < 8 || r.chance(1, 6)) {
                len = std::min(room, (int) r.range(1, 9));
                for (int k = 0; k < len; k++)
                    s += (char) ('a' + r.below(26));
            } else {
                int k = std::min(room - 8, (int) r.below(6));
                s += ref_utf8_encode(0xe0 + r.below(0x17));
                len = 7;
                if (k > 1) {
                    len += k;
                    for (int j = 1; j < k; j++)
                        s += (char) ('a' + r.below(26));
                }
            }
            n += len + 1;
            if (n < target || r.chance(1, 4))
                s += ".";
        }
        return s;
    }
    for (int i = 0; i < labels; i++) {
        if (i)
            s += r.chance(1, 12) ? ref_utf8_encode(0x3002) : ".";
        int style = r.below(8);
        int n = r.chance(1, 4) ? r.range(50, 70) : r.chance(1, 8) ? r.range(0, 260)
                                                                   : r.range(0, 14);
        for (int k = 0; k < n; k++) {
            if (style < 3)
                s += r.chance(1, 12) ? '-' : (char) ('a' + r.below(26));
            else if (style == 3)
                s += ref_utf8_encode(r.pick<int>({0xe4, 0xf6, 0xfc, 0x3b1, 0x430,
                                                  0x4e2d, 0x5d0, 0xc4, 0x131,
                                                  0x915, 0x93e, 0x940}));
            else if (style == 4)
                s += k % 7 ? std::string(1, 'a' + r.below(26))
                           : ref_utf8_encode(0xe5 + r.below(10));
            else if (style == 5)
                s += r.chance(1, 2) ? std::string(1, 'a' + r.below(26))
                                    : ref_utf8_encode(0x300 + r.below(20));
            else if (style == 6)
                s += ref_utf8_encode(0xac00 + r.below(11172));
            else
                s += ref_utf8_encode(rand_codepoint(r));
        }
    }
    if (r.chance(1, 8))
        s += ".";
    if (r.chance(1, 10) && !s.empty())
        s.insert(r.below(s.size()), 1, (char) (0x80 + r.below(128)));
    return s;
}

// -------------------------------------------------------- library calls ---
namespace {
struct Tr {
    std::string s;
    void num(i64 v)
    {
        char t[32];
        snprintf(t, sizeof t, "%lld;", (long long) v);
        s += t;
    }
    void bytes(const char *p, size_t n, const char *what)
    {
        chk_read(p, n, what);
        s += '"';
        s.append(p, n);
        s += "\";";
    }
    void str(const char *p, const char *what)
    {
        if (!p) {
            s += "NULL;";
            return;
        }
        chk_cstr(p, what);
        bytes(p, strlen(p), what);
    }
    // a fresh string of the library's, given back
    void fresh(char *p, const char *what)
    {
        str(p, what);
        auto owner = fsecure::fsdyn::make_fsalloc_ptr<char>(p);
    }
};
}
static std::string nonul(const std::string &s)
{
    std::string t = s;
    for (auto &c : t)
        if (!c)
            c = 'z';
    return t;
}
static void fresh_list(Tr &t, list_t *l)
{
    t.num(list_size(l));
    while (!list_empty(l)) {
        char *p = (char *) list_pop_first(l);
        t.str(p, "list of strings");
        fsfree(p);
    }
    destroy_list(l);
}
std::string text_call(int kind, const Op &op)
{
    Tr t;
    std::string b = nonul(op.blob);
    i64 x = op.arg(2), y = op.arg(3);
    Input in(b, true);
    const char *s = in.p, *end = in.p + b.size();
    size_t cut = (u64) x % (b.size() + 1);
    switch ((u64) kind % STR_KINDS) {
        case 0:
            t.fresh(charstr_dupstr(s), "charstr_dupstr");
            if (y & 1) { // nothing to copy is no copy
                t.str(charstr_dupstr(nullptr), "charstr_dupstr");
                t.str(charstr_strip(nullptr), "charstr_strip");
            }
            break;
        case 1:
            t.fresh(charstr_dupsubstr(s, s + cut), "charstr_dupsubstr");
            break;
        case 2: {
            Output o(b.size() + 1);
            memcpy(o.p, s, b.size() + 1);
            char *r = y & 1 ? charstr_lcase_str(o.p) : charstr_ucase_str(o.p);
            MODEL(r == o.p, "case-str", "did not return its argument");
            t.bytes(o.p, o.n, "case string");
            break;
        }
        case 3: {
            Output o(b.size());
            memcpy(o.p, s, b.size());
            char *r = y & 1 ? charstr_lcase_substr(o.p, o.p + cut)
                            : charstr_ucase_substr(o.p, o.p + cut);
            MODEL(r == o.p, "case-str", "did not return its argument");
            t.bytes(o.p, o.n, "case string");
            break;
        }
        case 4:
            fresh_list(t, charstr_split(s, y & 1 ? ',' : 'a',
                                        x & 3 ? (unsigned) -1 : (unsigned) y % 4));
            break;
        case 5: {
            unsigned m = (u64) y % 5;
            char **arr = (char **) caller_alloc((m + 1) * sizeof *arr, SH_RW);
            unsigned k = charstr_split_into_array(s, x & 1 ? ',' : ' ', arr, m);
            t.num(k);
            MODEL(k <= m, "split-limit", "%u splits, limit %u", k, m);
            for (unsigned i = 0; i <= k; i++)
                t.fresh(arr[i], "charstr_split_into_array");
            caller_free(arr);
            break;
        }
        case 6:
            fresh_list(t, charstr_split_atoms(s));
            break;
        case 7: {
            Input d(y & 1 ? "," : y & 2 ? "ab" : "::", true);
            fresh_list(t, charstr_split_str(s, d.p,
                                            x & 3 ? (unsigned) -1 : (unsigned) y % 4));
            break;
        }
        case 8:
            t.fresh(charstr_strip(s), "charstr_strip");
            break;
        case 9: {
            Input ex(b, false);
            const char *p = ex.p, *e = ex.p + b.size();
            while (p != e) {
                int cp = -1;
                const char *q = charstr_decode_utf8_codepoint(p, e, &cp);
                t.num(q ? cp : -1);
                p = q ? q : p + 1;
            }
            break;
        }
        case 10: {
            Input ex(b, false);
            t.num(charstr_valid_utf8(s));
            t.num(charstr_valid_utf8_bounded(ex.p, ex.p + b.size()));
            break;
        }
        case 11:
            t.fresh(charstr_sanitize_utf8(s), "charstr_sanitize_utf8");
            break;
        case 12: {
            Rng r(y);
            Output o(4);
            for (int i = 0; i < 8; i++) {
                int cp = rand_codepoint(r);
                size_t cap = r.below(5);
                char *q = charstr_encode_utf8_codepoint(cp, o.p, o.p + cap);
                t.num(q ? q - o.p : -1);
                if (q)
                    t.bytes(o.p, q - o.p, "utf8");
            }
            break;
        }
        case 13: {
            Rng r(y);
            for (int i = 0; i < 12; i++) {
                int cp = rand_codepoint(r);
                t.num(charstr_unicode_category(cp));
                t.num(charstr_naive_lcase_unicode(cp));
                t.num(charstr_naive_ucase_unicode(cp));
                t.num(charstr_unicode_canonical_combining_class(cp));
                t.num(charstr_allowed_unicode_normal_forms(cp));
            }
            break;
        }
        case 14: {
            Input ex(b, false);
            const char *e = ex.p + b.size();
            t.num(charstr_unicode_canonically_composed(ex.p, e));
            t.num(charstr_unicode_canonically_decomposed(ex.p, e));
            t.num(charstr_detect_unicode_normal_form(
                ex.p, e, UNICODE_NFKC_DISALLOWED, UNICODE_NFKC_MAYBE));
            break;
        }
        case 15:
        case 16: {
            Input ex(b, false);
            size_t cap = y & 1 ? 3 * b.size() + 1 : (u64) y % (3 * b.size() + 2);
            Output o(cap);
            errno = 0;
            char *q = kind % STR_KINDS == 15
                ? charstr_unicode_decompose(ex.p, ex.p + b.size(), o.p, o.p + cap)
                : charstr_unicode_recompose(ex.p, ex.p + b.size(), o.p, o.p + cap);
            t.num(q ? 0 : errno);
            if (q)
                t.bytes(o.p, q - o.p + 1, "normalised text");
            ex.unchanged("normalisation");
            break;
        }
        case 17:
            t.fresh(charstr_url_encode(s), "charstr_url_encode");
            t.str(charstr_url_encode_byte((u8) y), "charstr_url_encode_byte");
            break;
        case 18: {
            Input a(y & 1 ? "-._" : "/~", true), u(y & 2 ? " " : ":@", true);
            auto e = charstr_create_url_encoder(a.p, u.p);
            t.fresh(charstr_url_custom_encode(e, s), "charstr_url_custom_encode");
            t.str(charstr_url_custom_encode_byte(e, (u8) x),
                  "charstr_url_custom_encode_byte");
            auto ptr = fsecure::fsdyn::make_charstr_url_encoder_ptr(e);
            auto del = ptr.get_deleter();
            del(ptr.release());
            break;
        }
        case 19: {
            size_t n = 0;
            errno = 0;
            char *d = charstr_url_decode(s, y & 1, &n);
            t.num(d ? 0 : errno);
            if (d) {
                t.bytes(d, n + 1, "charstr_url_decode");
                fsfree(d);
            }
            break;
        }
        case 20: {
            if (y & 1)
                t.fresh(charstr_printf("%s", s), "charstr_printf");
            t.fresh(charstr_printf("%s/%lld/%5d|%x", s, (long long) x, (int) y % 9999,
                                   (unsigned) x), "charstr_printf");
            break;
        }
        case 21:
            t.fresh(charstr_idna_encode(s), "charstr_idna_encode");
            break;
        case 22: {
            Input ex(op.blob, false);
            t.fresh(base64_encode_simple(ex.p, op.blob.size()),
                    "base64_encode_simple");
            break;
        }
        case 23: {
            size_t n = 0;
            errno = 0;
            char *d = (char *) base64_decode_simple(s, &n);
            t.num(d ? 0 : errno);
            if (d) {
                t.bytes(d, n + 1, "base64_decode_simple");
                fsfree(d);
            }
            break;
        }
        case 24: {
            Input ex(op.blob, false);
            char p62 = y & 1 ? '-' : -1, p63 = y & 2 ? '_' : -1;
            size_t full = base64_encoding_size(op.blob.size());
            size_t cap = y & 4 ? full + 1 : (u64) x % (full + 2);
            Output o(cap);
            size_t n = base64_encode_buffer(ex.p, op.blob.size(), o.p, cap, p62, p63);
            t.num(n);
            t.bytes(o.p, std::min(cap, n + 1), "base64_encode_buffer");
            Output d(op.blob.size());
            ssize_t m = base64_decode_buffer(o.p, cap, d.p, d.n, p62, p63, y & 8);
            t.num(m);
            if (m >= 0)
                t.bytes(d.p, std::min((size_t) m, d.n), "base64_decode_buffer");
            break;
        }
        case 25: {
            struct tm *m = (struct tm *) caller_alloc(sizeof *m, SH_RW);
            memset(m, 0, sizeof *m);
            time_t e = (u64) (x * 1000003 + y * 86399) % 4000000000u;
            struct tm *r = epoch_to_utc(e, m);
            MODEL(r == m, "epoch-result", "did not return its argument");
            for (int v : {m->tm_sec, m->tm_min, m->tm_hour, m->tm_mday, m->tm_mon,
                          m->tm_year, m->tm_wday, m->tm_isdst})
                t.num(v);
            caller_free(m);
            break;
        }
        case 26: {
            Rng r(y);
            for (int i = 0; i < 6; i++) {
                double d = (double) (i64) (r.next() >> r.below(60));
                if (r.chance(1, 3))
                    d /= 4;
                if (r.chance(1, 2))
                    d = -d;
                u64 v;
                memcpy(&v, &d, 8);
                if (r.chance(1, 5))
                    v = r.next();
                long long n = 0;
                unsigned long long un = 0;
                bool a = binary64_to_integer(v, &n);
                bool c = binary64_to_unsigned(v, &un);
                t.num(a);
                t.num(c);
                if (a)
                    t.num(n);
                if (c)
                    t.num(un);
            }
            break;
        }
        case 27:
            t.num(integer_cmp(as_integer(x), as_integer(y)) > 0);
            t.num(unsigned_cmp(as_unsigned(x), as_unsigned(y)) > 0);
            t.num(hash_integer(as_integer(x)));
            t.num(hash_unsigned(as_unsigned(y)));
            t.num(hash_string(s));
            {
                Input ex(op.blob, false);
                t.num(hash_blob(ex.p, op.blob.size()));
            }
            break;
        case 28: {
            // the other string: a prefix, a longer string, a tail, in other case
            std::string ot = y % 4 == 0 ? b.substr(0, cut) : y % 4 == 1
                ? b + std::string(1 + (u64) x % 9, 'q') : y % 4 == 2
                ? b.substr(cut) : std::string((u64) x % 5, 'Q') + b;
            if (y & 16)
                for (auto &c : ot)
                    c = c >= 'a' && c <= 'z' ? c - 32 : c;
            Input o(ot, true);
            int c = charstr_case_cmp(s, o.p);
            t.num((c > 0) - (c < 0));
            c = charstr_ncase_cmp(s, o.p, (u64) y / 32 % (b.size() + 2));
            t.num((c > 0) - (c < 0));
            c = charstr_case_cmp(o.p, s);
            t.num((c > 0) - (c < 0));
            {
                // nothing is looked at beyond the given length
                size_t n = std::min(b.size(), ot.size());
                n = y & 1024 ? n : (u64) y / 64 % (n + 1);
                Input u(b.substr(0, n), false), v(ot.substr(0, n), false);
                c = charstr_ncase_cmp(u.p, v.p, n);
                t.num((c > 0) - (c < 0));
            }
            const char *q = charstr_skip_prefix(s, o.p);
            t.num(q ? q - s : -1);
            q = charstr_case_skip_prefix(s, o.p);
            t.num(q ? q - s : -1);
            q = charstr_case_starts_with(o.p, s);
            t.num(q ? q - o.p : -1);
            q = charstr_ncase_starts_with(o.p, s);
            t.num(q ? q - o.p : -1);
            t.num(charstr_ends_with(s, o.p));
            t.num(charstr_ends_with(o.p, s));
            o.unchanged("a comparison");
            break;
        }
        case 29:
            for (char c : b.substr(0, 40)) {
                t.num(charstr_char_class(c));
                t.num(charstr_lcase_char(c));
                t.num(charstr_ucase_char(c));
            }
            break;
        case 30: {
            Rng r(y);
            for (int i = 0; i < 6; i++) {
                int cp = rand_codepoint(r);
                t.str(charstr_idna_status(cp), "charstr_idna_status");
                if (charstr_idna_status_is_mapped(cp))
                    t.str(charstr_idna_mapping(cp), "charstr_idna_mapping");
            }
            break;
        }
        case 31: {
            size_t n = 1 + (u64) x % 300;
            u8 *p = (u8 *) fscalloc(n, 1 + (u64) y % 3);
            size_t z = n * (1 + (u64) y % 3);
            for (size_t i = 0; i < z; i++)
                MODEL(!p[i], "fscalloc", "byte %zu of %zu is not zero", i, z);
            memset(p, 7, z);
            p = (u8 *) fsrealloc(p, z + 100);
            t.bytes((char *) p, z, "fsrealloc");
            fsfree(p);
            fsfree(nullptr);
            break;
        }
    }
    in.unchanged("a text function");
    (void) end;
    return t.s;
}
Op gen_text_call(Rng &r)
{
    Op o;
    o.code = 700 + r.below(STR_KINDS);
    int kind = o.code - 700;
    o.a = {0, 0, (i64) r.below(1 << 20), (i64) r.below(1 << 20)};
    switch (kind) {
        case 9: case 10: case 11: case 14: case 15: case 16:
            o.blob = r.chance(1, 3) ? unicode_for(r)
                     : rand_unicode(r, r.chance(1, 8) ? 120 : 16, r.chance(1, 3));
            if (kind > 14 && r.chance(1, 3)) { // letters under several marks
                o.blob.clear();
                for (int i = r.range(1, 12); i; i--)
                    o.blob += ref_utf8_encode(r.chance(1, 3)
                        ? r.pick<int>({'a', 'o', 'u', 0x3b1, 0xe2, 0x1ea1, 'q'})
                        : r.pick<int>({0x300, 0x301, 0x302, 0x308, 0x323, 0x31b,
                                       0x345, 0x327, 0x304}));
            }
            break;
        case 21:
            o.blob = rand_hostname(r);
            break;
        case 17: case 18: case 19:
            o.blob = rand_text(r, r.pick<int>({0, 1, 2}), r.below(60));
            break;
        case 23: {
            std::string p = rand_text(r, 4, r.below(60));
            o.blob = ref_b64_encode(p, '+', '/');
            if (r.chance(1, 3) && !o.blob.empty())
                o.blob[r.below(o.blob.size())] = (char) (1 + r.below(255));
            break;
        }
        case 22: case 24: case 27:
            o.blob = rand_text(r, 4, r.below(r.chance(1, 8) ? 600 : 60));
            break;
        case 4: case 5: case 6: case 7: case 8:
            o.blob = rand_text(r, 3, r.below(50));
            break;
        default:
            o.blob = rand_text(r, r.pick<int>({0, 1}), r.below(60));
    }
    if (r.chance(1, 4 * LONG_TEXT) && kind != 21)
        lengthen(o.blob, r.range(40000, 70000));
    return o;
}
