// Reads VTK files back; scratch directories.
#ifndef VERIF_VTU_H
#define VERIF_VTU_H
#include "pbt.h"
#include "meshgen.h"
#include <cstdint>
#include <cstring>
#include <map>
#include <set>
#include <sstream>
#include <sys/stat.h>
#include <dirent.h>
namespace vtu {
inline std::string slurp(const std::string& path) {
    std::ifstream f(path, std::ios::binary);
    PBT_CHECK(f.good(), "there is no file " << path.substr(path.find_last_of('/') + 1));
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}
struct Tag {
    std::string name;
    std::map<std::string, std::string> attr;
    std::string text;
    std::vector<Tag> child;
    const Tag& one(const std::string& n) const {
        const Tag* r = nullptr;
        for (auto& c : child)
            if (c.name == n) {
                PBT_CHECK(!r, "two tags " << n);
                r = &c;
            }
        PBT_CHECK(r, "no tag " << n << " in " << name);
        return *r;
    }
    std::string get(const std::string& n) const {
        PBT_CHECK(attr.count(n), "tag " << name << " has no " << n);
        return attr.at(n);
    }
};
struct Parser {
    const std::string& t;
    std::size_t i = 0;
    explicit Parser(const std::string& x) : t(x) {}
    void blank() {
        while (i < t.size() && std::isspace((unsigned char)t[i])) ++i;
    }
    std::string word() {
        std::size_t b = i;
        while (i < t.size() && (std::isalnum((unsigned char)t[i]) || t[i] == '_')) ++i;
        return t.substr(b, i - b);
    }
    void expect(const std::string& s) {
        PBT_CHECK(t.compare(i, s.size(), s) == 0, "malformed XML at \"" << t.substr(i, 20) << "\", expected " << s);
        i += s.size();
    }
    Tag tag() {
        Tag r;
        expect("<");
        r.name = word();
        for (;;) {
            blank();
            PBT_CHECK(i < t.size(), "unfinished tag");
            if (t[i] == '/') {
                expect("/>");
                return r;
            }
            if (t[i] == '>') {
                ++i;
                break;
            }
            std::string a = word();
            expect("=\"");
            std::size_t b = t.find('"', i);
            PBT_CHECK(b != std::string::npos && !a.empty(), "malformed attribute");
            PBT_CHECK(!r.attr.count(a), "attribute twice");
            r.attr[a] = t.substr(i, b - i);
            i = b + 1;
        }
        for (;;) {
            std::size_t b = t.find('<', i);
            PBT_CHECK(b != std::string::npos, "tag " << r.name << " is never closed");
            r.text += t.substr(i, b - i);
            i = b;
            if (t[i + 1] == '/') {
                expect("</" + r.name + ">");
                return r;
            }
            r.child.push_back(tag());
        }
    }
    Tag document() {
        expect("<?xml version=\"1.0\"?>");
        blank();
        Tag r = tag();
        blank();
        PBT_CHECK(i == t.size(), "text after the end");
        return r;
    }
};
inline int digit(char c) {
    if (c >= 'A' && c <= 'Z') return c - 'A';
    if (c >= 'a' && c <= 'z') return c - 'a' + 26;
    if (c >= '0' && c <= '9') return c - '0' + 52;
    if (c == '+') return 62;
    if (c == '/') return 63;
    return -1;
}
/// decodes one padded stretch that starts at i, of n bytes
inline std::string decode(const std::string& t, std::size_t& i, std::size_t n) {
    std::string r;
    while (r.size() < n) {
        PBT_CHECK(i + 4 <= t.size(), "base64 text of " << t.size() << " characters is too short");
        unsigned v = 0, bytes = 3;
        for (int k = 0; k < 4; ++k) {
            char c = t[i + k];
            int d = digit(c);
            if (d < 0) {
                PBT_CHECK(c == '=' && k >= 2, "base64 character " << (int)c);
                if (bytes == 3) bytes = k - 1;
                d = 0;
            } else
                PBT_CHECK(bytes == 3, "base64 padding in the middle");
            v = v << 6 | d;
        }
        i += 4;
        PBT_CHECK(r.size() + bytes == std::min(n, r.size() + 3), "base64 padding does not match the length");
        for (unsigned k = 0; k < bytes; ++k) r += (char)(v >> (16 - 8 * k) & 255);
    }
    return r;
}
template <class T>
std::vector<T> binary(const Tag& a, const char* type) {
    PBT_CHECK(a.get("type") == type, "type of an array is " << a.get("type"));
    PBT_CHECK(a.get("format") == "binary", "format of an array");
    std::string t;
    for (char c : a.text)
        if (!std::isspace((unsigned char)c)) t += c;
    std::size_t i = 0;
    std::string h = decode(t, i, 4);
    std::uint32_t n;
    std::memcpy(&n, h.data(), 4);
    PBT_CHECK(n % sizeof(T) == 0, "an array of " << n << " bytes");
    std::string d = decode(t, i, n);
    PBT_CHECK(i == t.size(), "text after an array");
    std::vector<T> r(n / sizeof(T));
    if (n) std::memcpy(&r[0], d.data(), n);
    return r;
}
inline std::size_t number(const std::string& s) { return (std::size_t)std::stoul(s); }

inline std::string scratchDir() {
    std::string d = meshgen::scratch("out") + ".d";
    ::mkdir(d.c_str(), 0700);
    return d;
}
struct Dir {
    std::string path = scratchDir();
    ~Dir() {
        for (auto& f : files()) std::remove((path + "/" + f).c_str());
        ::rmdir(path.c_str());
    }
    std::set<std::string> files() const {
        std::set<std::string> r;
        if (DIR* d = ::opendir(path.c_str())) {
            while (dirent* e = ::readdir(d))
                if (std::string(e->d_name) != "." && std::string(e->d_name) != "..") r.insert(e->d_name);
            ::closedir(d);
        }
        return r;
    }
};
}  // namespace vtu
#endif
