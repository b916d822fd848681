// Clients exchanging encoded text over a faulty transport (C13, C14, C15),
// filling bounded output areas (C16), and breaking down time inside nested
// signal handlers (C12).
#include "text.h"
#include <cerrno>
#include <ctime>
#include "base64.h"
#include "charstr.h"
#include "containers.h"
#include "date.h"

enum {
    M_B64 = 800, M_B64_LIMITS,
    M_URL_NEW = 810, M_URL_SEND, M_URL_DEL, M_URL_TABLE,
    M_UTF8 = 820, M_UTF8_STREAM, M_UTF8_TEXT,
    M_DECOMPOSE = 830, M_RECOMPOSE, M_ENCODE, M_HOST,
    M_EPOCH = 840, M_EPOCH_BUSY
};

namespace {
struct UrlEncoder {
    charstr_url_encoder_t *e = nullptr;
    bool busy = false;
    std::string reserve, unreserve;
};
struct TmFields {
    int v[8];
    bool operator==(const TmFields &o) const { return !memcmp(v, o.v, sizeof v); }
    std::string str() const
    {
        char t[160];
        snprintf(t, sizeof t, "%d-%d-%d %d:%d:%d wday %d isdst %d", v[5], v[4],
                 v[3], v[2], v[1], v[0], v[6], v[7]);
        return t;
    }
};
TmFields fields(const struct tm *m)
{
    return TmFields{{m->tm_sec, m->tm_min, m->tm_hour, m->tm_mday, m->tm_mon,
                     m->tm_year, m->tm_wday, m->tm_isdst}};
}
std::string cut_at_nul(const std::string &s) { return s.substr(0, s.find('\0')); }

struct CodecWorld : World {
    Plan &plan;
    UrlEncoder enc[4];
    std::map<time_t, TmFields> solo;
    std::map<int, std::string> solo_call;
    std::vector<time_t> handler_epochs;
    size_t handled = 0;

    explicit CodecWorld(Plan &p) : plan(p) {}
    void install()
    {
        fs_set_reallocator(sim_realloc);
        fs_set_reallocator_counter(sim_counter);
    }
    void setup() override;
    int lock_of(const Op &op) override
    {
        return op.code / 10 == 81 && op.arg(0) % 5 ? 1 + op.arg(0) % 5 : -1;
    }
    void exec(const Op &op) override;
    void finish() override
    {
        for (auto &e : enc)
            if (e.e) {
                url_table(&e);
                charstr_destroy_url_encoder(e.e);
                e.e = nullptr;
            }
    }
    void b64(const Op &op);
    void b64_limits(const Op &op);
    void url_new(const Op &op);
    void url_send(const Op &op);
    void url_table(const UrlEncoder *e);
    bool url_expect(const UrlEncoder *e, u8 b, std::string *out);
    void utf8(const Op &op);
    void utf8_at(const std::string &s, bool nul, Rng &r);
    void utf8_stream(const Op &op);
    void utf8_text(const Op &op);
    void normalize(const Op &op, bool decompose);
    void encode(const Op &op);
    void host(const Op &op);
    void breakdown(time_t e, bool handler);
    void epoch_busy(const Op &op);
};

// ------------------------------------------------------------------ C13 ---
void CodecWorld::b64(const Op &op)
{
    const std::string &data = op.blob;
    char p62 = (char) op.arg(1, -1), p63 = (char) op.arg(2, -1);
    char e62 = p62 == (char) -1 ? '+' : p62, e63 = p63 == (char) -1 ? '/' : p63;
    bool wsp = op.arg(3) & 1;
    Rng r(op.arg(4));
    std::string full = ref_b64_encode(data, e62, e63);
    Input src(data, false);
    MODEL(base64_encoding_size(data.size()) == full.size(), "base64-size",
          "encoding size of %zu bytes reported as %zu", data.size(),
          base64_encoding_size(data.size()));
    size_t caps[4] = {full.size() + 1, full.size() + (size_t) r.below(3),
                      (size_t) r.below(full.size() + 2),
                      (size_t) r.below(std::min<size_t>(full.size() + 2, 9))};
    std::string sent;
    for (size_t cap : caps) {
        Output o(cap);
        size_t n = base64_encode_buffer(src.p, src.n, o.p, cap, p62, p63);
        if (cap <= full.size()) {
            fired(F_FULL);
            note_nontrivial();
        }
        MODEL(n == full.size(), "base64-encode",
              "encoding %zu bytes with room for %zu reported %zu, not %zu",
              data.size(), cap, n, full.size());
        if (!cap)
            continue;
        size_t k = std::min(cap - 1, full.size());
        MODEL(!memcmp(o.p, full.data(), k) && !o.p[k], "base64-encode",
              "encoding of %zu bytes into %zu gave \"%s\", expected \"%s\"",
              data.size(), cap, printable(std::string(o.p, k + 1)).c_str(),
              printable(full.substr(0, k)).c_str());
        if (k == full.size())
            sent.assign(o.p, k);
    }
    if (p62 == (char) -1 && p63 == (char) -1) {
        char *s = base64_encode_simple(src.p, src.n);
        MODEL(s, "base64-encode-simple", "NULL for %zu bytes", data.size());
        chk_cstr(s, "base64_encode_simple");
        MODEL(full == s, "base64-encode-simple", "gave \"%s\", expected \"%s\"",
              printable(s).c_str(), printable(full).c_str());
        fsfree(s);
    }
    src.unchanged("base64 encoding");
    // what the sender adds on purpose
    if (wsp && op.arg(3) & 2) {
        size_t step = 1 + r.below(20);
        static const char W[] = " \t\n\f\r";
        for (size_t i = step; i < full.size() - (full.size() > 2 ? 2 : 0);
             i += step + 1)
            if (sent[i - 1] != '=') // not between padding characters
                sent.insert(i, 1, W[r.below(5)]);
        if (r.chance(1, 2))
            sent += "\r\n";
    }
    bool intact;
    std::string got = deliver(sent, op, &intact);
    std::string want;
    RefVerdict v = ref_b64_decode(got, e62, e63, wsp, &want);
    if (intact)
        MODEL(v == REF_OK && want == data, "harness-base64", "reference disagrees");
    PROBEV(v == REF_OK ? intact ? "base64 intact" : "base64 damaged, still canonical"
          : v == REF_REFUSE ? "base64 refused" : "base64 unspecified");
    size_t room = v == REF_REFUSE ? got.size() : want.size();
    size_t dcaps[4] = {room, r.below(2) ? room + 1 : room ? room - 1 : 0,
                       (size_t) r.below(room + 1), 0};
    for (int i = 0; i < 4; i++)
        for (int nul = 0; nul < 2; nul++) {
            Input in(got, nul);
            size_t cap = dcaps[i];
            Output o(cap);
            errno = 0;
            ssize_t n = base64_decode_buffer(in.p, nul ? (size_t) -1 : in.n, o.p,
                                             cap, p62, p63, wsp);
            int e = errno;
            in.unchanged("base64_decode_buffer");
            if (n < 0) {
                MODEL(v != REF_OK, "base64-decode",
                      "refused \"%s\" (%zu bytes%s, room %zu), which encodes %zu "
                      "bytes", printable(got).c_str(), got.size(),
                      nul ? " and NUL" : "", cap, want.size());
                MODEL(e == EILSEQ, "base64-decode-errno", "errno is %d", e);
                continue;
            }
            MODEL(v != REF_REFUSE, "base64-decode",
                  "accepted \"%s\" (%zu bytes%s, room %zu) as %zd bytes",
                  printable(got).c_str(), got.size(), nul ? " and NUL" : "", cap, n);
            MODEL((size_t) n == want.size(), "base64-decode",
                  "\"%s\" decodes to %zu bytes, reported %zd with room %zu",
                  printable(got).c_str(), want.size(), n, cap);
            MODEL(!memcmp(o.p, want.data(), std::min(cap, want.size())),
                  "base64-decode", "wrong bytes from \"%s\" with room %zu",
                  printable(got).c_str(), cap);
            if (cap < want.size())
                fired(F_FULL);
        }
    if (e62 == '+' && e63 == '/' && wsp) {
        Input in(got, true);
        size_t n = 99;
        errno = 0;
        char *d = (char *) base64_decode_simple(in.p, &n);
        int e = errno;
        if (!d) {
            MODEL(v != REF_OK, "base64-decode-simple", "refused \"%s\"",
                  printable(got).c_str());
            MODEL(e == EILSEQ, "base64-decode-errno", "errno is %d", e);
        } else {
            MODEL(v != REF_REFUSE && n == want.size(), "base64-decode-simple",
                  "decoded \"%s\" as %zu bytes", printable(got).c_str(), n);
            chk_read(d, n + 1, "base64_decode_simple");
            MODEL(!memcmp(d, want.data(), n) && !d[n], "base64-decode-simple",
                  "wrong bytes from \"%s\"", printable(got).c_str());
            fsfree(d);
        }
    }
}
void CodecWorld::b64_limits(const Op &op)
{
    Rng r(op.arg(4));
    for (int i = 0; i < 16; i++) {
        size_t n = r.chance(1, 3) ? (size_t) -1 - r.below(8)
            : r.chance(1, 2) ? SIZE_MAX / 4 * 3 + r.range(-8, 8)
            : r.next() >> r.below(64);
        unsigned __int128 t = ((unsigned __int128) n + 2) / 3 * 4;
        size_t want = t > SIZE_MAX ? (size_t) -1 : (size_t) t;
        MODEL(base64_encoding_size(n) == want, "base64-size",
              "encoding size of %zu bytes reported as %zu", n,
              base64_encoding_size(n));
    }
    static const char A[] =
        "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    for (int c = 0; c < 256; c++) {
        const char *p = c ? strchr(A, c) : nullptr;
        int want = p ? p - A : c == 0 ? -4 : c == '=' ? -3
            : strchr(" \t\n\f\r", c) ? -2 : -1;
        MODEL(base64_bitfield_decoding[c] == want, "base64-table",
              "byte %d maps to %d, not %d", c, base64_bitfield_decoding[c], want);
    }
    MODEL(!memcmp(base64_bitfield_encoding, A, 64), "base64-table",
          "encoding table is wrong");
}

// ------------------------------------------------------------------ C14 ---
bool CodecWorld::url_expect(const UrlEncoder *e, u8 b, std::string *out)
{
    if (e && b && e->reserve.find((char) b) != std::string::npos) {
        char t[8];
        snprintf(t, sizeof t, "%%%02X", b);
        *out = t;
        return true;
    }
    if (e && b && e->unreserve.find((char) b) != std::string::npos) {
        *out = std::string(1, (char) b);
        return true;
    }
    return ref_url_byte(b, out);
}
static bool url_either(u8 b, const std::string &got)
{
    char t[8];
    snprintf(t, sizeof t, "%%%02X", b);
    return got == t || got == std::string(1, (char) b);
}
void CodecWorld::url_table(const UrlEncoder *e)
{
    for (int b = 0; b < 256; b++) {
        const char *p = e ? charstr_url_custom_encode_byte(e->e, b)
                          : charstr_url_encode_byte(b);
        chk_cstr(p, "encoding of a byte");
        std::string want;
        if (url_expect(e, b, &want))
            MODEL(want == p, "url-byte", "byte %d is encoded \"%s\", not \"%s\"%s",
                  b, printable(p).c_str(), want.c_str(),
                  e ? " by a custom encoder" : "");
        else
            MODEL(url_either(b, p), "url-byte", "byte %d is encoded \"%s\"", b,
                  printable(p).c_str());
    }
}
void CodecWorld::url_new(const Op &op)
{
    i64 slot = op.arg(0) % 5;
    if (!slot || enc[slot - 1].e)
        return;
    UrlEncoder &u = enc[slot - 1];
    size_t k = (u64) op.arg(1) % (op.blob.size() + 1);
    std::string a = cut_at_nul(op.blob.substr(0, k)), b;
    for (char c : op.blob.substr(k)) // the two sets are disjoint
        if (c && a.find(c) == std::string::npos)
            b += c;
    Input ra(a, true), rb(b, true);
    auto *e = charstr_create_url_encoder(ra.p, rb.p);
    MODEL(e, "url-encoder", "no encoder");
    ra.unchanged("charstr_create_url_encoder");
    rb.unchanged("charstr_create_url_encoder");
    u.reserve = a;
    u.unreserve = b;
    u.e = e;
    url_table(&u);
}
void CodecWorld::url_send(const Op &op)
{
    i64 slot = op.arg(0) % 5;
    const UrlEncoder *u = slot && enc[slot - 1].e ? &enc[slot - 1] : nullptr;
    std::string text = op.blob;
    for (auto &c : text)
        if (!c)
            c = '%';
    std::string sent;
    {
        Input in(text, true);
        char *s = u ? charstr_url_custom_encode(u->e, in.p)
                    : charstr_url_encode(in.p);
        MODEL(s, "url-encode", "NULL for %zu bytes", text.size());
        chk_cstr(s, "URL encoding");
        sent = s;
        fsfree(s);
        in.unchanged("URL encoding");
    }
    size_t at = 0;
    for (char c : text) {
        std::string want;
        if (!url_expect(u, c, &want)) {
            want = sent.substr(at, at < sent.size() && sent[at] == '%' ? 3 : 1);
            MODEL(url_either(c, want), "url-encode", "byte %d encoded as \"%s\"",
                  (u8) c, printable(want).c_str());
        }
        MODEL(sent.compare(at, want.size(), want) == 0, "url-encode",
              "\"%s\" encoded as \"%s\": at %zu expected \"%s\"%s",
              printable(text).c_str(), printable(sent).c_str(), at, want.c_str(),
              u ? " (custom encoder)" : "");
        at += want.size();
    }
    MODEL(at == sent.size(), "url-encode", "\"%s\" encoded as \"%s\", which goes on",
          printable(text).c_str(), printable(sent).c_str());
    bool intact, plus = op.arg(3) & 1, stray = !(op.arg(4) % 5);
    if (stray) { // an encoded NUL or another stray escape
        static const char *S[] = {"%00", "%00", "%0a", "%fF", "%2", "%", "%G0", "+"};
        sent.insert(op.arg(4) / 40 % (sent.size() + 1), S[op.arg(4) / 5 % 8]);
        fired(F_INSERT);
        note_nontrivial();
    }
    std::string got = cut_at_nul(deliver(sent, op, &intact));
    intact = intact && !stray;
    std::string want;
    bool ok = ref_url_decode(got, plus, &want);
    PROBEV(ok ? intact ? "url intact" : "url damaged, still legal" : "url refused");
    if (want.find('\0') != std::string::npos)
        PROBE("url NUL decoded");
    Input in(got, true);
    size_t n = 77;
    bool ask = !(op.arg(3) & 2);
    errno = 0;
    char *d = charstr_url_decode(in.p, plus, ask ? &n : nullptr);
    int e = errno;
    in.unchanged("charstr_url_decode");
    if (!d) {
        MODEL(!ok, "url-decode", "refused \"%s\"", printable(got).c_str());
        MODEL(e == EILSEQ, "url-decode-errno", "errno is %d", e);
        return;
    }
    MODEL(ok, "url-decode", "accepted \"%s\"", printable(got).c_str());
    if (ask)
        MODEL(n == want.size(), "url-decode",
              "\"%s\" decodes to %zu bytes, reported %zu", printable(got).c_str(),
              want.size(), n);
    chk_read(d, want.size() + 1, "URL decoding");
    MODEL(!memcmp(d, want.data(), want.size()) && !d[want.size()], "url-decode",
          "\"%s\" decoded to \"%s\", expected \"%s\"", printable(got).c_str(),
          printable(std::string(d, want.size() + 1)).c_str(),
          printable(want).c_str());
    if (intact && plus && (!u || u->unreserve.find_first_of("%+") == std::string::npos))
        MODEL(want == text, "url-round-trip", "\"%s\" came back as \"%s\"",
              printable(text).c_str(), printable(want).c_str());
    fsfree(d);
}

// ------------------------------------------------------------------ C15 ---
void CodecWorld::utf8_at(const std::string &s, bool nul, Rng &r)
{
    // decode at every position near the tear, the bound being the block's end
    Input in(s, nul);
    size_t from = s.size() > 6 ? s.size() - 6 : 0;
    if (r.chance(1, 6))
        from = 0;
    for (size_t i = from; i <= s.size(); i++) {
        if (nul && i == s.size())
            break;
        int cp = -7, want = -7;
        int len = ref_utf8(s.data() + i, s.size() - i, &want);
        bool ask = !r.chance(1, 8);
        const char *q = charstr_decode_utf8_codepoint(
            in.p + i, nul ? nullptr : in.p + s.size(), ask ? &cp : nullptr);
        MODEL((q != nullptr) == (len > 0), "utf8-decode",
              "%s %s with %zu bytes left", len ? "refused" : "accepted",
              hex(s.substr(i, 5)).c_str(), s.size() - i);
        if (!q)
            continue;
        MODEL(q == in.p + i + len, "utf8-decode",
              "%s decoded as %d bytes, not %d", hex(s.substr(i, 5)).c_str(),
              (int) (q - in.p - (ptrdiff_t) i), len);
        if (ask)
            MODEL(cp == want, "utf8-decode", "%s decoded as U+%04X, not U+%04X",
                  hex(s.substr(i, len)).c_str(), cp, want);
    }
}
void CodecWorld::utf8(const Op &op)
{
    Rng r(op.arg(4));
    bool intact;
    std::string s = deliver(op.blob, op, &intact);
    // tear the stream at every place (or at 60 of them)
    size_t n = s.size();
    for (size_t k = 0; k <= std::min<size_t>(n, 60); k++) {
        size_t cut = n <= 60 ? k : r.below(n + 1);
        fired(F_TRUNC);
        utf8_at(s.substr(0, cut), false, r);
        std::string z = cut_at_nul(s.substr(0, cut));
        utf8_at(z, true, r);
    }
    if (r.chance(1, 6))
        MODEL(!charstr_decode_utf8_codepoint(nullptr, nullptr, nullptr),
              "utf8-decode", "decoded NULL");
}
void CodecWorld::utf8_stream(const Op &op)
{
    // a receiver decoding what has arrived so far, holding back what is cut
    Rng r(op.arg(4));
    bool intact;
    std::string s = deliver(op.blob, op, &intact), pend;
    std::vector<int> out, want;
    for (size_t i = 0; i < s.size();) {
        int cp, n = ref_utf8(s.data() + i, s.size() - i, &cp);
        want.push_back(n ? cp : -1);
        i += n ? n : 1;
    }
    size_t pos = 0;
    while (pos < s.size() || !pend.empty()) {
        bool last = pos == s.size();
        size_t k = std::min<size_t>(1 + r.below(5), s.size() - pos);
        pend += s.substr(pos, k);
        pos += k;
        Input in(pend, false);
        size_t at = 0;
        while (at < pend.size()) {
            int cp = -1;
            const char *q =
                charstr_decode_utf8_codepoint(in.p + at, in.p + pend.size(), &cp);
            if (!q && !last && pend.size() - at < 4)
                break; // may be complete later
            out.push_back(q ? cp : -1);
            at = q ? q - in.p : at + 1;
        }
        pend.erase(0, at);
    }
    MODEL(out == want, "utf8-stream",
          "decoding %s in pieces gave %zu codepoints, or others, than the %zu it "
          "holds", hex(s.substr(0, 60)).c_str(), out.size(), want.size());
}
void CodecWorld::utf8_text(const Op &op)
{
    bool intact;
    std::string s = deliver(op.blob, op, &intact), z = cut_at_nul(s);
    Input ex(s, false), in(z, true);
    bool v = ref_utf8_valid(s), vz = ref_utf8_valid(z);
    PROBEV(v ? "utf8 text valid" : "utf8 text invalid");
    MODEL(charstr_valid_utf8_bounded(ex.p, ex.p + s.size()) == v, "utf8-valid",
          "bounded check of %s says %s", hex(s.substr(0, 80)).c_str(),
          v ? "invalid" : "valid");
    MODEL(charstr_valid_utf8(in.p) == vz, "utf8-valid", "check of %s says %s",
          hex(z.substr(0, 80)).c_str(), vz ? "invalid" : "valid");
    char *p = charstr_sanitize_utf8(in.p);
    MODEL(p, "utf8-sanitize", "NULL");
    chk_cstr(p, "sanitized text");
    std::string want = ref_sanitize(z);
    MODEL(want == p, "utf8-sanitize", "%s sanitized to %s, expected %s",
          hex(z.substr(0, 60)).c_str(), hex(std::string(p).substr(0, 60)).c_str(),
          hex(want.substr(0, 60)).c_str());
    fsfree(p);
    in.unchanged("charstr_sanitize_utf8");
}

// ------------------------------------------------------------------ C16 ---
typedef char *(*norm_fn)(const char *, const char *, char *, const char *);
struct NormResult { bool ok; int err; std::string out; };
static NormResult run_norm(norm_fn f, const std::string &s, bool nul, size_t cap)
{
    Input in(s, nul);
    Output o(cap);
    errno = 0;
    char *q = f(in.p, nul ? nullptr : in.p + in.n, o.p, o.p + cap);
    int e = errno;
    in.unchanged("normalisation");
    if (!q)
        return NormResult{false, e, ""};
    MODEL(q >= o.p && q < o.p + cap, "normalise-result",
          "returned %td bytes of output with room for %zu", q - o.p, cap);
    MODEL(!*q, "normalise-result", "the output is not terminated");
    return NormResult{true, 0, std::string(o.p, q - o.p)};
}
void CodecWorld::normalize(const Op &op, bool dec)
{
    norm_fn f = dec ? charstr_unicode_decompose : charstr_unicode_recompose;
    const char *name = dec ? "decompose" : "recompose";
    bool intact;
    std::string s = deliver(op.blob, op, &intact);
    Rng r(op.arg(4));
    bool nul = op.arg(3) & 1, canonical = false;
    if (nul)
        s = cut_at_nul(s);
    std::string eff = cut_at_nul(s);
    // bytes after an embedded NUL are not looked at
    bool valid = ref_utf8_valid(eff);
    if (!dec && valid && op.arg(3) & 2) { // what the documentation asks for
        NormResult d = run_norm(charstr_unicode_decompose, eff, nul,
                                3 * eff.size() + 1);
        MODEL(d.ok, "decompose-space", "%zu bytes do not fit in three times as many"
              " (errno %d): %s", eff.size(), d.err, hex(eff.substr(0, 80)).c_str());
        s = eff = d.out;
        canonical = true;
        PROBE("recompose of canonical input");
    }
    size_t marks = 0, run = 0; // longest run of combining marks
    if (valid)
        for (size_t i = 0; i < eff.size();) {
            int cp, k = ref_utf8(eff.data() + i, eff.size() - i, &cp);
            run = charstr_unicode_canonical_combining_class(cp) ? run + 1 : 0;
            marks = std::max(marks, run);
            i += k;
        }
    NormResult big = run_norm(f, s, nul, 4 * s.size() + 64);
    if (!valid) {
        MODEL(!big.ok, "normalise-bad-input", "%s accepted %s", name,
              hex(eff.substr(0, 80)).c_str());
        MODEL(big.err == EILSEQ || (big.err == ENOBUFS && !dec), "normalise-errno",
              "%s of badly encoded text: errno %d", name, big.err);
    } else if (!big.ok) {
        MODEL(!dec && big.err == ENOBUFS && marks > 90, "normalise-refusal",
              "%s of %s refused with errno %d despite room for all", name,
              hex(eff.substr(0, 80)).c_str(), big.err);
    } else {
        if (dec)
            MODEL(big.out.size() <= 3 * eff.size(), "decompose-space",
                  "%zu bytes became %zu", eff.size(), big.out.size());
        if (canonical)
            MODEL(big.out.size() <= eff.size(), "recompose-space",
                  "%zu bytes of canonical text became %zu", eff.size(),
                  big.out.size());
        MODEL(ref_utf8_valid(big.out), "normalise-result", "%s of %s is not UTF-8",
              name, hex(eff.substr(0, 80)).c_str());
    }
    size_t top = big.ok ? big.out.size() + 3 : eff.size() * 2 + 3;
    size_t tries = std::min<size_t>(top, s.size() > 4000 ? 4 : 40);
    for (size_t k = 0; k < tries; k++) {
        size_t cap = top <= 40 ? k
            : k < 12 ? std::min(top - 1, (big.ok ? big.out.size() : eff.size()) + k - 9)
            : r.below(top);
        NormResult x = run_norm(f, s, nul, cap);
        if (big.ok && cap > big.out.size()) {
            MODEL(x.ok, "normalise-space", "%s into %zu bytes refused (errno %d), "
                  "%zu and a NUL needed", name, cap, x.err, big.out.size());
            MODEL(x.out == big.out, "normalise-result",
                  "%s with room for %zu differs from that with ample room", name, cap);
        } else {
            fired(F_FULL);
            note_nontrivial();
            MODEL(!x.ok, "normalise-space", "%s of %s fits %zu bytes and a NUL into "
                  "%zu", name, hex(eff.substr(0, 60)).c_str(), x.out.size(), cap);
            if (big.ok)
                MODEL(x.err == EOVERFLOW, "normalise-errno",
                      "%s of %s into %zu bytes: errno %d, not EOVERFLOW", name,
                      hex(eff.substr(0, 60)).c_str(), cap, x.err);
            else
                MODEL(x.err == EOVERFLOW || x.err == EILSEQ ||
                      (x.err == ENOBUFS && !dec), "normalise-errno",
                      "%s into %zu bytes: errno %d", name, cap, x.err);
        }
    }
}
void CodecWorld::encode(const Op &op)
{
    Rng r(op.arg(4));
    for (int i = 0; i < 12; i++) {
        int cp = i ? rand_codepoint(r)
                   : (int) r.pick<int>({0, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000,
                                        0x10ffff, 0xd7ff, 0xe000});
        std::string want = ref_utf8_encode(cp);
        for (size_t cap = 0; cap <= 5; cap++) {
            Output o(cap);
            char *q = charstr_encode_utf8_codepoint(cp, o.p, o.p + cap);
            MODEL((q != nullptr) == (want.size() <= cap), "utf8-encode",
                  "U+%04X into %zu bytes: %s", cp, cap, q ? "accepted" : "refused");
            if (!q) {
                fired(F_FULL);
                continue;
            }
            MODEL(q == o.p + want.size() && !memcmp(o.p, want.data(), want.size()),
                  "utf8-encode", "U+%04X encoded as %s", cp,
                  hex(std::string(o.p, std::min<size_t>(q - o.p, cap))).c_str());
        }
        Output o(want.size());
        char *q = charstr_encode_utf8_codepoint(cp, o.p, nullptr);
        MODEL(q == o.p + want.size() && !memcmp(o.p, want.data(), want.size()),
              "utf8-encode", "U+%04X without a bound", cp);
        MODEL(!charstr_encode_utf8_codepoint(cp, nullptr, nullptr), "utf8-encode",
              "encoded into NULL");
    }
}
void CodecWorld::host(const Op &op)
{
    bool intact;
    std::string s = cut_at_nul(deliver(op.blob, op, &intact));
    Input in(s, true);
    char *p = charstr_idna_encode(in.p);
    in.unchanged("charstr_idna_encode");
    bool ascii = true;
    for (char c : s)
        ascii = ascii && !(c & 0x80);
    if (!p) {
        MODEL(!ascii, "idna", "refused an all-ASCII name");
        PROBE("host name refused");
        return;
    }
    chk_cstr(p, "encoded host name");
    std::string t = p;
    fsfree(p);
    if (ascii) {
        MODEL(t.size() == s.size() && !strcasecmp(t.c_str(), s.c_str()), "idna",
              "ASCII name \"%s\" became \"%s\"", printable(s).c_str(),
              printable(t).c_str());
        return;
    }
    PROBE("host name encoded");
    MODEL(ref_utf8_valid(s), "idna", "accepted badly encoded %s",
          hex(s.substr(0, 80)).c_str());
    size_t label = 0;
    for (char c : t) {
        MODEL(!(c & 0x80), "idna", "the encoding of %s is not ASCII",
              hex(s.substr(0, 80)).c_str());
        label = c == '.' ? 0 : label + 1;
        MODEL(label <= 63, "idna-limits", "a label of \"%s\" exceeds 63 characters",
              t.c_str());
    }
    if (t.size() > 245)
        PROBE("host name near the limit");
    MODEL(t.size() <= 254, "idna-limits", "name of %zu characters", t.size());
}

// ------------------------------------------------------------------ C12 ---
static const int ERRNO_MARK = 0x5a5a;
void CodecWorld::breakdown(time_t e, bool handler)
{
    struct tm *m = (struct tm *) caller_alloc(sizeof *m, SH_RW);
    int keep = errno;
    errno = ERRNO_MARK;
    bool old = set_signal_safe(true);
    struct tm *r = epoch_to_utc(e, m);
    set_signal_safe(old);
    MODEL(errno == ERRNO_MARK, "epoch-errno", "errno changed to %d", errno);
    errno = keep;
    MODEL(r == m, "epoch-result", "did not return its argument");
    TmFields got = fields(m);
    auto it = solo.find(e);
    if (it != solo.end())
        MODEL(got == it->second, "epoch-interrupted",
              "breakdown of %lld %s gave %s; uninterrupted it gives %s",
              (long long) e, handler ? "in a signal handler" : "interrupted by "
              "signals", got.str().c_str(), it->second.str().c_str());
    trace(hash_bytes(&got, sizeof got));
    caller_free(m);
}
void CodecWorld::epoch_busy(const Op &op)
{
    Op call = op;
    call.code = 700 + (u64) op.arg(1) % STR_KINDS;
    std::string got = text_call(call.code - 700, call);
    auto it = solo_call.find(op.id);
    if (it != solo_call.end())
        MODEL(got == it->second, "interrupted-call",
              "a call interrupted by signals whose handler breaks down time gave "
              "\"%s\"; uninterrupted \"%s\"", printable(got).c_str(),
              printable(it->second).c_str());
}

void CodecWorld::setup()
{
    if (plan.prop == "C12") {
        std::vector<time_t> all;
        for (auto &op : plan.ops)
            if (op.code == M_EPOCH)
                for (i64 v : op.a)
                    all.push_back(v);
        handler_epochs = all;
        if (handler_epochs.empty())
            handler_epochs.push_back(951782400);
        for (auto &op : plan.ops)
            for (size_t i = 0; i < op.blob.size() && op.code == M_EPOCH; i++)
                (void) i;
        all.push_back(951782400);
        for (time_t e : all) {
            restore_statics();
            struct tm m;
            memset(&m, 0, sizeof m);
            epoch_to_utc(e, &m);
            solo[e] = fields(&m);
        }
        for (auto &op : plan.ops)
            if (op.code == M_EPOCH_BUSY) {
                restore_statics();
                install();
                solo_call[op.id] = text_call((u64) op.arg(1) % STR_KINDS, op);
            }
        restore_statics();
    }
    install();
    if (plan.prop == "C12")
        signal_handler = [this] {
            // the handler may run anywhere: it uses nothing but the breakdown
            time_t e = handler_epochs[handled++ % handler_epochs.size()];
            breakdown(e, true);
        };
}
void CodecWorld::exec(const Op &op)
{
    switch (op.code) {
        case M_B64: b64(op); break;
        case M_B64_LIMITS: b64_limits(op); break;
        case M_URL_NEW: url_new(op); break;
        case M_URL_SEND: url_send(op); break;
        case M_URL_DEL: {
            i64 slot = op.arg(0) % 5;
            if (slot && enc[slot - 1].e) {
                auto *e = enc[slot - 1].e;
                enc[slot - 1].e = nullptr;
                charstr_destroy_url_encoder(e);
            }
            break;
        }
        case M_URL_TABLE: {
            i64 slot = op.arg(0) % 5;
            if (!slot)
                url_table(nullptr);
            else if (enc[slot - 1].e)
                url_table(&enc[slot - 1]);
            break;
        }
        case M_UTF8: utf8(op); break;
        case M_UTF8_STREAM: utf8_stream(op); break;
        case M_UTF8_TEXT: utf8_text(op); break;
        case M_DECOMPOSE: normalize(op, true); break;
        case M_RECOMPOSE: normalize(op, false); break;
        case M_ENCODE: encode(op); break;
        case M_HOST: host(op); break;
        case M_EPOCH:
            for (i64 v : op.a)
                breakdown(v, false);
            break;
        case M_EPOCH_BUSY: epoch_busy(op); break;
    }
}

// ------------------------------------------------------------ generators --
i64 rand_epoch(Rng &r)
{
    // the day number has to fit an int with the days since 1600 added
    const i64 far = ((1ll << 31) - 1 - 135080) * 86400;
    switch (r.below(7)) {
        case 0: return r.below(1u << 31);
        case 1: return r.below(1ull << 36);
        case 6: // centuries away, at every order of magnitude
            return r.chance(1, 4)
                ? r.pick<i64>({(1ll << 32) - 1, 1ll << 32, 253402300799, 253402300800,
                               far - 1, far, (i64) 1 << 46})
                : r.below(far) >> r.below(14);
        case 2: // around the end of February
            return 951782400 + (i64) r.below(40) * 1461 * 86400 + r.range(-90000, 90000);
        case 3: return r.pick<i64>({0, 1, 59, 60, 3599, 3600, 86399, 86400, 951782399,
                                    951782400, 951868799, 951868800, 4107542399,
                                    4107542400, 13574563199, 13574563200});
        case 4: return (i64) r.below(60000) * 86400 + r.pick<i64>({0, 86399});
        default: return r.below(1u << 31);
    }
}
} // namespace

World *make_codec_world(Plan &p) { return new CodecWorld(p); }

void gen_codec(Plan &p, Rng &r)
{
    gen_heap(p, r);
    int tasks = r.range(1, 3);
    p.cfg["tasks"] = tasks;
    p.scen = "messages";
    int nops = r.range(3, 14);
    if (p.prop == "C12") {
        p.scen = "signals";
        p.cfg["hot"] = r.pick<int>({0, 1, 1, 5});
        p.cfg["hot_budget"] = r.range(1, 12);
    }
    for (int i = 0; i < nops; i++) {
        Op o;
        o.id = i + 1;
        o.task = r.range(1, tasks);
        // slot, , , flags, seed, -, -, transport
        o.a = {0, 0, 0, (i64) r.below(4), (i64) r.below(1u << 30), 0, 0,
               r.chance(1, 4) ? (i64) (1 + r.below(1 << 20)) : 0};
        if (p.prop == "C13") {
            static const char P62[] = "-.!,+*/_:\xe4", P63[] = "_/~;+:-\x7f\xf6?";
            o.code = r.chance(1, 20) ? M_B64_LIMITS : M_B64;
            o.blob = rand_text(r, 4, r.chance(1, 12) ? r.below(2500) : r.chance(1, 3)
                               ? r.below(8) : r.below(70));
            if (r.chance(1, 3)) // bytes that need characters 62 and 63
                for (auto &c : o.blob)
                    c = r.pick<char>({(char) 0xff, (char) 0xfb, (char) 0xef,
                                      (char) 0xbe, 0, 'a'});
            o.a[1] = o.a[2] = -1;
            if (r.chance(1, 2)) {
                o.a[1] = (u8) P62[r.below(sizeof P62 - 1)];
                do
                    o.a[2] = r.chance(1, 4) ? '/' : (u8) P63[r.below(sizeof P63 - 1)];
                while (o.a[1] == o.a[2]);
                if (o.a[1] != '/' && r.chance(1, 4))
                    o.a[2] = -1;
                else if (o.a[2] != '+' && r.chance(1, 4))
                    o.a[1] = -1;
            }
            static const char S[] = "==A/+-_ \n\r\t\f\v.z9\0\x80";
            gen_damage(o, r, S, sizeof S - 1);
        } else if (p.prop == "C14") {
            int k = r.below(10);
            o.code = k < 2 ? M_URL_NEW : k < 8 ? M_URL_SEND : k < 9 ? M_URL_TABLE
                                                                    : M_URL_DEL;
            o.a[0] = r.below(5);
            if (o.code == M_URL_NEW) {
                o.blob = rand_text(r, r.pick<int>({0, 1, 2}), r.below(24));
                o.a[1] = r.below(1 << 16);
                if (r.chance(1, 2) && !o.blob.empty()) // '%' and '+' mostly reserved
                    for (auto &c : o.blob)
                        if (c == '%' || c == '+')
                            c = '*';
            } else if (o.code == M_URL_SEND) {
                o.blob = rand_text(r, r.pick<int>({0, 1, 2, 2}),
                                   r.chance(1, 12) ? r.below(900) : r.below(40));
                static const char S[] = "%%%+0aFgG \0\x80xX-";
                gen_damage(o, r, S, sizeof S - 1);
            }
        } else if (p.prop == "C15") {
            o.code = r.pick<int>({M_UTF8, M_UTF8, M_UTF8_STREAM, M_UTF8_TEXT,
                                  M_UTF8_TEXT});
            o.blob = r.chance(1, 5) ? rand_text(r, 4, r.below(40))
                                    : rand_unicode(r, r.chance(1, 8) ? 80 : 12,
                                                   r.chance(1, 2));
            static const char S[] =
                "\x80\xbf\xc0\xc1\xc2\xdf\xe0\xed\xef\xf0\xf4\xf5\xf8\xff\0\xa0\x90";
            gen_damage(o, r, S, sizeof S - 1);
        } else if (p.prop == "C16") {
            int k = r.below(10);
            o.code = k < 3 ? M_DECOMPOSE : k < 6 ? M_RECOMPOSE : k < 9 ? M_HOST
                                                                       : M_ENCODE;
            o.blob = o.code == M_HOST ? rand_hostname(r) : unicode_for(r);
            if (r.chance(1, 4)) {
                static const char S[] = "\x80\xbf\xc0\xe0\xed\xf4\0.-a";
                gen_damage(o, r, S, sizeof S - 1);
            }
        } else { // C12
            if (r.chance(2, 3)) {
                o.code = M_EPOCH;
                o.a.clear();
                for (int n = r.range(1, 3); n > 0; n--)
                    o.a.push_back(rand_epoch(r));
            } else {
                Op c = gen_text_call(r);
                o.code = M_EPOCH_BUSY;
                o.a = c.a;
                o.a[1] = c.code - 700;
                o.blob = c.blob;
            }
            i64 at = 0;
            for (int n = r.below(6); n > 0; n--) {
                at += r.chance(1, 2) ? r.range(1, 12) : r.range(1, 90);
                o.f.push_back(Fault{F_SIGNAL, at, 0});
            }
        }
        if (r.chance(1, LONG_TEXT) && !o.blob.empty() && o.code != M_URL_NEW &&
            o.code != M_UTF8 && o.code != M_HOST) { // more than 16 bits can count
            size_t n = r.range(40000, 90000);
            if (o.code == M_EPOCH_BUSY)
                continue;
            lengthen(o.blob, n);
            p.scen = "long";
            p.cfg["long"] = 1;
        }
        p.ops.push_back(o);
    }
    if (tasks > 1)
        gen_preempts(p, r, r.below(6), 10, 400);
}
