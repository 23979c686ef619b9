// Minimal XML reader for the documents the framework exports.
#pragma once
#include <string>
#include <utility>
#include <vector>
#include <cstring>
#include <cstdlib>

struct XNode
{
    std::string tag, text;
    std::vector<std::pair<std::string, std::string>> attrs;
    std::vector<XNode> kids;
    const std::string *attr(const char *n) const
    {
        for (auto &a : attrs)
            if (a.first == n) return &a.second;
        return nullptr;
    }
    std::string at(const char *n) const
    {
        auto p = attr(n);
        return p ? *p : std::string();
    }
    const XNode *kid(const char *t) const
    {
        for (auto &k : kids)
            if (k.tag == t) return &k;
        return nullptr;
    }
};

struct XParser
{
    const char *p, *e;
    bool ok = true;
    static std::string unesc(const std::string &s)
    {
        std::string r;
        for (size_t i = 0; i < s.size(); i++) {
            if (s[i] != '&') {
                r += s[i];
                continue;
            }
            size_t j = s.find(';', i);
            if (j == std::string::npos) return r;
            std::string n = s.substr(i + 1, j - i - 1);
            if (n == "amp") r += '&';
            else if (n == "lt") r += '<';
            else if (n == "gt") r += '>';
            else if (n == "quot") r += '"';
            else if (n == "apos") r += '\'';
            else if (n[0] == '#') {
                unsigned c = n[1] == 'x' ? strtoul(n.c_str() + 2, 0, 16) : strtoul(n.c_str() + 1, 0, 10);
                if (c < 0x80) r += char(c);
                else if (c < 0x800) r += char(0xc0 | c >> 6), r += char(0x80 | (c & 63));
                else r += char(0xe0 | c >> 12), r += char(0x80 | (c >> 6 & 63)), r += char(0x80 | (c & 63));
            }
            i = j;
        }
        return r;
    }
    void ws() { while (p < e && strchr(" \t\r\n", *p)) p++; }
    bool skipMisc()
    {
        for (;;) {
            ws();
            if (e - p > 1 && p[0] == '<' && p[1] == '?') {
                while (p < e && *p != '>') p++;
                p++;
            } else if (e - p > 3 && !strncmp(p, "<!--", 4)) {
                const char *q = strstr(p, "-->");
                if (!q) return ok = false;
                p = q + 3;
            } else
                return true;
        }
    }
    bool element(XNode &n)
    {
        if (p >= e || *p != '<') return ok = false;
        p++;
        while (p < e && !strchr(" \t\r\n/>", *p)) n.tag += *p++;
        for (;;) {
            ws();
            if (p >= e) return ok = false;
            if (*p == '/') { p += 2; return true; }
            if (*p == '>') { p++; break; }
            std::string k, v;
            while (p < e && *p != '=') k += *p++;
            p++;
            char q = *p++;
            while (p < e && *p != q) v += *p++;
            p++;
            n.attrs.push_back({k, unesc(v)});
        }
        std::string raw;
        for (;;) {
            if (p >= e) return ok = false;
            if (*p == '<') {
                if (p[1] == '/') {
                    while (p < e && *p != '>') p++;
                    p++;
                    n.text = unesc(raw);
                    return true;
                }
                if (!strncmp(p, "<!--", 4)) {
                    const char *q = strstr(p, "-->");
                    if (!q) return ok = false;
                    p = q + 3;
                    continue;
                }
                n.kids.emplace_back();
                if (!element(n.kids.back())) return false;
            } else
                raw += *p++;
        }
    }
    static bool parse(const std::string &s, XNode &n)
    {
        XParser x;
        x.p = s.c_str();
        x.e = x.p + s.size();
        x.skipMisc();
        return x.element(n);
    }
};
