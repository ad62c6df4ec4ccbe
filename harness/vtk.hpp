// Independent reader of the snapshot files: base64 and the little XML they use, written from the VTK file format.
#ifndef VF_VTK_HPP_
#define VF_VTK_HPP_
#include <cstdint>
#include <cstring>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace vtkf {
inline bool slurp(const std::string &name, std::string &s) {
    std::ifstream f(name, std::ios::binary);
    if (!f)
        return false;
    std::stringstream b;
    b << f.rdbuf();
    s = b.str();
    return true;
}
// strict base64 of a whole block: length a multiple of 4, padding only at the end, unused bits zero
inline bool b64(const std::string &s, std::vector<unsigned char> &out, std::string &err) {
    static const std::string T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    out.clear();
    if (s.size() % 4) {
        err = "length is not a multiple of 4";
        return false;
    }
    for (size_t i = 0; i < s.size(); i += 4) {
        int v[4], pad = 0;
        for (int k = 0; k < 4; k++) {
            if (s[i + k] == '=' && i + 4 == s.size() && k >= 2) {
                pad++;
                v[k] = 0;
                continue;
            }
            const size_t p = T.find(s[i + k]);
            if (p == std::string::npos || pad) {
                err = "invalid character";
                return false;
            }
            v[k] = (int)p;
        }
        const int b = v[0] << 18 | v[1] << 12 | v[2] << 6 | v[3];
        out.push_back(b >> 16 & 255);
        if (pad < 2)
            out.push_back(b >> 8 & 255);
        if (pad < 1)
            out.push_back(b & 255);
        if ((pad == 1 && (b & 255)) || (pad == 2 && (b & 0xffff))) {
            err = "unused bits are not zero";
            return false;
        }
    }
    return true;
}

struct Node {
    std::string name, text;
    std::map<std::string, std::string> attr;
    std::vector<Node> child;
    const Node *find(const std::string &n) const {
        for (auto &c : child)
            if (c.name == n)
                return &c;
        return nullptr;
    }
};
struct Xml {
    const std::string &s;
    size_t p = 0;
    std::string err;
    explicit Xml(const std::string &t) : s(t) {}
    void ws() {
        while (p < s.size() && isspace((unsigned char)s[p]))
            p++;
    }
    bool fail(const std::string &e) {
        if (err.empty())
            err = e + " at byte " + std::to_string(p);
        return false;
    }
    bool element(Node &n) {
        ws();
        if (p >= s.size() || s[p] != '<')
            return fail("no element");
        p++;
        while (p < s.size() && !isspace((unsigned char)s[p]) && s[p] != '>' && s[p] != '/')
            n.name += s[p++];
        for (;;) {
            ws();
            if (p >= s.size())
                return fail("open tag");
            if (s[p] == '/') {
                p++;
                if (p >= s.size() || s[p] != '>')
                    return fail("bad tag");
                p++;
                return true;
            }
            if (s[p] == '>') {
                p++;
                break;
            }
            std::string k, v;
            while (p < s.size() && s[p] != '=' && !isspace((unsigned char)s[p]) && s[p] != '>')
                k += s[p++];
            ws();
            if (p >= s.size() || s[p] != '=')
                return fail("attribute without value");
            p++;
            ws();
            if (p >= s.size() || s[p] != '"')
                return fail("attribute not quoted");
            p++;
            while (p < s.size() && s[p] != '"')
                v += s[p++];
            if (p >= s.size())
                return fail("open attribute");
            p++;
            if (n.attr.count(k))
                return fail("attribute given twice");
            n.attr[k] = v;
        }
        for (;;) {
            size_t q = s.find('<', p);
            if (q == std::string::npos)
                return fail("element " + n.name + " not closed");
            n.text += s.substr(p, q - p);
            p = q;
            if (p + 1 < s.size() && s[p + 1] == '/') {
                p += 2;
                std::string e;
                while (p < s.size() && s[p] != '>')
                    e += s[p++];
                p++;
                while (!e.empty() && isspace((unsigned char)e.back()))
                    e.pop_back();
                if (e != n.name)
                    return fail("element " + n.name + " closed by " + e);
                return true;
            }
            n.child.emplace_back();
            if (!element(n.child.back()))
                return false;
        }
    }
    bool document(Node &n) {
        ws();
        if (s.compare(p, 5, "<?xml") == 0) {
            p = s.find("?>", p);
            if (p == std::string::npos)
                return fail("prolog");
            p += 2;
        }
        if (!element(n))
            return false;
        ws();
        return p == s.size() ? true : fail("text after the document");
    }
};

struct Arr {
    std::string type;
    int ncomp = 1;
    std::vector<unsigned char> raw;
    size_t bytes() const { return type == "UInt8" ? 1 : type == "Float64" ? 8 : 4; }
    size_t values() const { return raw.size() / bytes(); }
    template <class T>
    T at(size_t i) const {
        T v;
        memcpy(&v, raw.data() + i * sizeof(T), sizeof(T));
        return v;
    }
};
struct Piece {
    long npoints = -1, nlines = -1;
    std::map<std::string, Arr> points, lines, pdata, cdata;
};
inline bool arrays(const Node &n, std::map<std::string, Arr> &out, std::string &err) {
    for (auto &c : n.child) {
        if (c.name != "DataArray") {
            err = "unexpected element " + c.name;
            return false;
        }
        Arr a;
        a.type = c.attr.count("type") ? c.attr.at("type") : "";
        if (a.type != "UInt8" && a.type != "Int32" && a.type != "Float32" && a.type != "Float64") {
            err = "type '" + a.type + "'";
            return false;
        }
        a.ncomp = c.attr.count("NumberOfComponents") ? atoi(c.attr.at("NumberOfComponents").c_str()) : 1;
        if (!c.attr.count("format") || c.attr.at("format") != "binary") {
            err = "format is not binary";
            return false;
        }
        std::string t;
        for (char ch : c.text)
            if (!isspace((unsigned char)ch))
                t += ch;
        // header: byte count, UInt32, encoded on its own
        std::vector<unsigned char> h;
        if (t.size() < 8 || !b64(t.substr(0, 8), h, err) || h.size() != 4) {
            err = "array header: " + err;
            return false;
        }
        uint32_t nb;
        memcpy(&nb, h.data(), 4);
        if (!b64(t.substr(8), a.raw, err))
            return false;
        if (a.raw.size() != nb) {
            err = "header says " + std::to_string(nb) + " bytes, there are " + std::to_string(a.raw.size());
            return false;
        }
        const std::string nm = c.attr.count("Name") ? c.attr.at("Name") : "";
        if (out.count(nm)) {
            err = "array " + nm + " is there twice";
            return false;
        }
        out[nm] = a;
    }
    return true;
}
inline bool readPiece(const std::string &file, Piece &p, std::string &err) {
    std::string s;
    if (!slurp(file, s)) {
        err = "cannot read " + file;
        return false;
    }
    Xml x(s);
    Node n;
    if (!x.document(n)) {
        err = file + ": " + x.err;
        return false;
    }
    if (n.name != "VTKFile" || n.attr["type"] != "PolyData" || n.attr["byte_order"] != "LittleEndian" || n.attr["header_type"] != "UInt32" || !n.find("PolyData")) {
        err = file + ": not a PolyData file";
        return false;
    }
    const Node *pc = n.find("PolyData")->find("Piece");
    if (!pc || n.find("PolyData")->child.size() != 1) {
        err = file + ": not one piece";
        return false;
    }
    p.npoints = atol(pc->attr.at("NumberOfPoints").c_str());
    p.nlines = atol(pc->attr.at("NumberOfLines").c_str());
    struct {
        const char *nm;
        std::map<std::string, Arr> *m;
    } parts[] = {{"Points", &p.points}, {"Lines", &p.lines}, {"PointData", &p.pdata}, {"CellData", &p.cdata}};
    for (auto &q : parts) {
        const Node *e = pc->find(q.nm);
        if (!e || !arrays(*e, *q.m, err)) {
            err = file + ": " + q.nm + ": " + err;
            return false;
        }
    }
    // shapes
    for (auto &a : p.points)
        if (a.second.ncomp != 3 || (long)a.second.values() != 3 * p.npoints)
            err = "points";
    for (auto &a : p.pdata)
        if ((long)a.second.values() != a.second.ncomp * p.npoints)
            err = "point array " + a.first;
    for (auto &a : p.cdata)
        if ((long)a.second.values() != a.second.ncomp * p.nlines)
            err = "cell array " + a.first;
    if (p.points.size() != 1 || !p.lines.count("connectivity") || !p.lines.count("offsets") || (long)p.lines["offsets"].values() != p.nlines)
        err = "lines";
    if (!err.empty()) {
        err = file + ": wrong number of values: " + err;
        return false;
    }
    return true;
}
struct Par {
    std::vector<std::string> pieces;
    std::map<std::string, std::pair<std::string, int>> pdata, cdata;
    std::string pointType;
    int pointComp = 0;
};
inline bool readPar(const std::string &file, Par &p, std::string &err) {
    std::string s;
    if (!slurp(file, s)) {
        err = "cannot read " + file;
        return false;
    }
    Xml x(s);
    Node n;
    if (!x.document(n)) {
        err = file + ": " + x.err;
        return false;
    }
    const Node *d = n.find("PPolyData");
    if (n.name != "VTKFile" || n.attr["type"] != "PPolyData" || !d) {
        err = file + ": not a PPolyData file";
        return false;
    }
    for (auto &c : d->child) {
        if (c.name == "Piece")
            p.pieces.push_back(c.attr.count("Source") ? c.attr.at("Source") : "");
        else if (c.name == "PPoints") {
            if (c.child.size() == 1) {
                p.pointType = c.child[0].attr.at("type");
                p.pointComp = atoi(c.child[0].attr.at("NumberOfComponents").c_str());
            }
        } else if (c.name == "PPointData" || c.name == "PCellData")
            for (auto &a : c.child) {
                auto &m = c.name == "PPointData" ? p.pdata : p.cdata;
                const std::string nm = a.attr.at("Name");
                if (m.count(nm)) {
                    err = file + ": array " + nm + " twice";
                    return false;
                }
                m[nm] = {a.attr.at("type"), atoi(a.attr.at("NumberOfComponents").c_str())};
            }
    }
    return true;
}
// what the parallel header declares against what a piece holds
inline bool agree(const Par &h, const Piece &p, std::string &err) {
    auto same = [&](const std::map<std::string, std::pair<std::string, int>> &d, const std::map<std::string, Arr> &a, const char *w) {
        if (d.size() != a.size()) {
            err = std::string(w) + ": header declares " + std::to_string(d.size()) + " arrays, piece has " + std::to_string(a.size());
            return false;
        }
        for (auto &x : d) {
            auto it = a.find(x.first);
            if (it == a.end() || it->second.type != x.second.first || it->second.ncomp != x.second.second) {
                err = std::string(w) + " array " + x.first + " declared as " + x.second.first + "x" + std::to_string(x.second.second) + ", piece has " +
                      (it == a.end() ? "none" : it->second.type + "x" + std::to_string(it->second.ncomp));
                return false;
            }
        }
        return true;
    };
    if (!same(h.pdata, p.pdata, "point data") || !same(h.cdata, p.cdata, "cell data"))
        return false;
    if (h.pointType != p.points.begin()->second.type || h.pointComp != 3) {
        err = "points declared as " + h.pointType;
        return false;
    }
    return true;
}
} // namespace vtkf
#endif
