// Configuration files and file encodings.
//   yaml  P25: generated run configurations, read by the code in a child process
//   enc   P28: base64, data arrays and VTK heads, read back by an independent parser
#include "Boundary/Boundary.hpp"
#include "Sylinder/SylinderConfig.hpp"
#include "Util/Base64.hpp"
#include "Util/IOHelper.hpp"
#include "vf.hpp"
#include "vtk.hpp"
#include <algorithm>
#include <array>
#include <functional>
#include <memory>
#include <sys/stat.h>
#include <sys/wait.h>
using vf::Rng;

// ------------------------------------------------------------------ P25
struct BndIn {
    int kind; // wall tube sphere
    double c[3], n[3], R;
    bool inside;
    std::shared_ptr<Boundary> make() const {
        double a[3] = {c[0], c[1], c[2]}, b[3] = {n[0], n[1], n[2]};
        if (kind == 0)
            return std::make_shared<Wall>(a, b);
        if (kind == 1)
            return std::make_shared<Tube>(a, b, R, inside);
        return std::make_shared<SphereShell>(a, R, inside);
    }
};
static const int NQ = 6; // probes per boundary
struct Out {             // what the child saw
    double v[64];
    int nb;
    int kind[16];
    double proj[16][NQ][6];
};
// the values in one fixed order
static void values(const SylinderConfig &c, double *v) {
    int k = 0;
    v[k++] = c.rngSeed;
    for (auto *a : {c.simBoxLow, c.simBoxHigh})
        for (int j = 0; j < 3; j++)
            v[k++] = a[j];
    for (int j = 0; j < 3; j++)
        v[k++] = c.simBoxPBC[j];
    for (double x : {c.viscosity, c.KBT, (double)c.sylinderNumber, c.sylinderLength, c.sylinderDiameter, c.dt, c.timeTotal, c.timeSnap, c.conResTol, (double)c.conMaxIte,
                     (double)c.conSolverChoice, (double)c.logLevel, (double)c.timerLevel, (double)c.monolayer})
        v[k++] = x;
    for (auto *a : {c.initBoxLow, c.initBoxHigh, c.initOrient})
        for (int j = 0; j < 3; j++)
            v[k++] = a[j];
    for (double x : {(double)c.initCircularX, (double)c.initPreSteps, c.linkKappa, c.linkGap, (double)c.sylinderFixed, c.sylinderLengthSigma, c.sylinderDiameterColRatio,
                     c.sylinderLengthColRatio, c.sylinderColBuf})
        v[k++] = x;
}
struct Key {
    const char *name;
    int dim;   // 0: scalar
    char type; // d i u b
    bool must;
    double dflt[3];
    int at; // position in values()
};
static std::vector<Key> keys() {
    std::vector<Key> k = {{"rngSeed", 0, 'u', true},          {"simBoxLow", 3, 'd', true},        {"simBoxHigh", 3, 'd', true},      {"simBoxPBC", 3, 'b', true},
                          {"viscosity", 0, 'd', true},        {"KBT", 0, 'd', true},              {"sylinderNumber", 0, 'i', true},  {"sylinderLength", 0, 'd', true},
                          {"sylinderDiameter", 0, 'd', true}, {"dt", 0, 'd', true},               {"timeTotal", 0, 'd', true},       {"timeSnap", 0, 'd', true},
                          {"conResTol", 0, 'd', true},        {"conMaxIte", 0, 'i', true},        {"conSolverChoice", 0, 'i', true}, {"logLevel", 0, 'l', false, {2}},
                          {"timerLevel", 0, 'l', false, {2}}, {"monolayer", 0, 'b', false, {0}},  {"initBoxLow", 3, 'd', false},     {"initBoxHigh", 3, 'd', false},
                          {"initOrient", 3, 'd', false, {2, 2, 2}}, {"initCircularX", 0, 'b', false, {0}}, {"initPreSteps", 0, 'i', false, {100}}, {"linkKappa", 0, 'd', false, {100}},
                          {"linkGap", 0, 'd', false, {0.01}}, {"sylinderFixed", 0, 'b', false, {0}}, {"sylinderLengthSigma", 0, 'd', false, {-1}},
                          {"sylinderDiameterColRatio", 0, 'd', false, {1}}, {"sylinderLengthColRatio", 0, 'd', false, {1}}, {"sylinderColBuf", 0, 'd', false, {0.3}}};
    int at = 0;
    for (auto &q : k) {
        q.at = at;
        at += q.dim ? q.dim : 1;
    }
    return k;
}
static std::string put(Rng &r, char t, double &v) {
    switch (t) {
    case 'b':
        v = r.i(2);
        return r.pick(v ? std::vector<std::string>{"true", "True", "TRUE", "yes", "on"} : std::vector<std::string>{"false", "False", "FALSE", "no", "off"});
    case 'u':
        v = (double)(unsigned)(r.u64() >> (32 + r.i(31)));
        return vf::fmt("%.0f", v);
    case 'i':
        v = (double)((long)(r.u64() >> (33 + r.i(30))) * (r.p(0.2) ? -1 : 1));
        return vf::fmt("%.0f", v);
    case 'l':
        v = r.i(7);
        return vf::fmt("%.0f", v);
    default: {
        v = r.p(0.1) ? 0 : r.p(0.2) ? r.i(-20, 20) : (r.p(0.3) ? -1 : 1) * r.logu(1e-12, 1e9);
        std::string s = vf::fmt(r.pick(std::vector<std::string>{"%.17g", "%g", "%.6e", "%.3E", "%f"}).c_str(), v);
        v = strtod(s.c_str(), nullptr);
        return s;
    }
    }
}
static std::string vec(Rng &r, const std::vector<std::string> &e, const std::string &ind) {
    if (r.p(0.6) || e.empty()) {
        std::string s = " [";
        for (size_t k = 0; k < e.size(); k++)
            s += (k ? (r.p(0.5) ? ", " : ",  ") : "") + e[k];
        return s + "]\n";
    }
    std::string s = "\n";
    for (auto &x : e)
        s += ind + "  - " + x + "\n";
    return s;
}
// child: 0 = read; 1 = reported an error; 2 = crashed or something else
static int readIt(const std::string &file, const std::vector<std::array<double, 3>> &probes, Out &o) {
    int fd[2];
    if (pipe(fd))
        return 2;
    fflush(nullptr);
    const pid_t p = fork();
    if (p == 0) {
        close(fd[0]);
        int rc = 0;
        try {
            SylinderConfig c(file);
            values(c, o.v);
            o.nb = (int)c.boundaryPtr.size();
            for (int b = 0; b < std::min(16, o.nb); b++) {
                Boundary *q = c.boundaryPtr[b].get();
                o.kind[b] = dynamic_cast<Wall *>(q) ? 0 : dynamic_cast<Tube *>(q) ? 1 : dynamic_cast<SphereShell *>(q) ? 2 : 3;
                for (int k = 0; k < NQ; k++)
                    q->project(probes[b * NQ + k].data(), o.proj[b][k], o.proj[b][k] + 3);
            }
            c.dump();
        } catch (const std::exception &) {
            _exit(41);
        }
        const char *w = (const char *)&o;
        size_t n = 0;
        while (n < sizeof o) {
            const ssize_t m = write(fd[1], w + n, sizeof o - n);
            if (m <= 0)
                _exit(42);
            n += m;
        }
        fflush(nullptr);
        _exit(rc);
    }
    close(fd[1]);
    size_t n = 0;
    for (;;) {
        const ssize_t m = read(fd[0], (char *)&o + n, sizeof o - n);
        if (m <= 0)
            break;
        n += m;
    }
    close(fd[0]);
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && n == sizeof o)
        return 0;
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 41 || (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 42 && WEXITSTATUS(st) < 90)))
        return 1;
    return 2;
}
static void yaml() {
    const auto K = keys();
    vf::forCases("yaml", [&](uint64_t c, Rng &r) {
        double want[64] = {0};
        std::vector<std::string> entry(K.size()); // text of each key, empty if absent
        std::vector<bool> given(K.size());
        const double pOpt = r.pick(std::vector<double>{0, 0.3, 0.7, 1});
        for (size_t k = 0; k < K.size(); k++) {
            const Key &q = K[k];
            given[k] = q.must || r.p(pOpt);
            std::vector<std::string> e;
            for (int j = 0; j < std::max(q.dim, 1); j++) {
                double v;
                e.push_back(put(r, q.type, v));
                want[q.at + j] = v;
            }
            if (given[k])
                entry[k] = std::string(q.name) + ":" + (q.dim ? vec(r, e, "") : (r.p(0.5) ? " " : "   ") + e[0] + (r.p(0.2) ? " # as measured\n" : "\n"));
        }
        auto idx = [&](const char *n) {
            for (size_t k = 0; k < K.size(); k++)
                if (!strcmp(K[k].name, n))
                    return k;
            abort();
        };
        for (size_t k = 0; k < K.size(); k++)
            if (!given[k])
                for (int j = 0; j < std::max(K[k].dim, 1); j++) {
                    const std::string n = K[k].name;
                    want[K[k].at + j] = n == "initBoxLow" ? want[K[idx("simBoxLow")].at + j] : n == "initBoxHigh" ? want[K[idx("simBoxHigh")].at + j] : K[k].dflt[j];
                }
        if (!given[idx("timerLevel")])
            want[K[idx("timerLevel")].at] = want[K[idx("logLevel")].at];
        // boundaries
        std::vector<BndIn> B;
        std::vector<std::vector<std::pair<std::string, std::string>>> bt;
        for (int k = r.p(0.4) ? 0 : r.i(1, 6); k > 0; k--) {
            BndIn b;
            b.kind = r.i(3);
            std::vector<std::string> cs, ns;
            double v;
            for (int j = 0; j < 3; j++) {
                cs.push_back(vf::fmt("%.10g", b.c[j] = r.p(0.2) ? 0 : r.n() * 10));
                b.c[j] = atof(cs.back().c_str());
            }
            r.dir(b.n);
            const double sc = r.p(0.5) ? 1 : r.logu(0.01, 100); // directions need not be normalised
            for (int j = 0; j < 3; j++) {
                ns.push_back(vf::fmt("%.10g", b.n[j] * sc));
                b.n[j] = atof(ns.back().c_str());
            }
            const std::string Rs = vf::fmt("%.8g", r.logu(0.1, 100));
            b.R = atof(Rs.c_str());
            const std::string in = put(r, 'b', v);
            b.inside = v != 0;
            B.push_back(b);
            std::vector<std::pair<std::string, std::string>> t;
            t.push_back({"type", std::string(" ") + (b.kind == 0 ? "wall" : b.kind == 1 ? "tube" : "sphere") + "\n"});
            t.push_back({"center", vec(r, cs, "    ")});
            if (b.kind < 2)
                t.push_back({b.kind == 0 ? "norm" : "axis", vec(r, ns, "    ")});
            if (b.kind > 0) {
                t.push_back({"radius", " " + Rs + "\n"});
                t.push_back({"inside", " " + in + "\n"});
            }
            r.shuffle(t);
            bt.push_back(t);
        }
        // at most one mistake
        std::string bad;
        const int kind = r.p(0.5) ? 0 : r.i(1, 9);
        auto pickKey = [&](std::function<bool(const Key &, bool)> f) -> int {
            std::vector<int> z;
            for (size_t k = 0; k < K.size(); k++)
                if (f(K[k], given[k]))
                    z.push_back((int)k);
            return z.empty() ? -1 : r.pick(z);
        };
        std::string raw;
        bool noFile = false;
        auto drop = [&](std::vector<std::pair<std::string, std::string>> &t, const std::string &n) {
            for (size_t k = 0; k < t.size(); k++)
                if (t[k].first == n)
                    t.erase(t.begin() + k);
        };
        if (kind == 1 || kind == 2) { // missing
            const int k = pickKey([](const Key &q, bool) { return q.must; });
            entry[k].clear();
            bad = std::string("no ") + K[k].name;
        } else if (kind == 3) { // wrong length
            const int k = pickKey([](const Key &q, bool g) { return q.dim && g; });
            const int n = r.pick(std::vector<int>{0, 1, 2, 4, 5});
            std::vector<std::string> e;
            double v;
            for (int j = 0; j < n; j++)
                e.push_back(put(r, K[k].type, v));
            entry[k] = std::string(K[k].name) + ":" + vec(r, e, "");
            if (r.p(0.2))
                entry[k] = std::string(K[k].name) + ": " + put(r, K[k].type, v) + "\n";
            bad = vf::fmt("%s of %d elements", K[k].name, n);
        } else if (kind == 4 || kind == 5) { // not a number
            const int k = pickKey([](const Key &, bool g) { return g; });
            const Key &q = K[k];
            std::vector<std::string> junk{"abc", "\"1 2\"", "{a: 1}", "~", "1.2.3", "five", "--1", "0.5m"};
            if (q.type == 'b')
                junk = {"maybe", "tru", "1.5", "{a: 1}", "~", "yess"};
            if (q.type == 'i' || q.type == 'u' || q.type == 'l')
                junk.insert(junk.end(), {"1.5", "1e3", "true", "99999999999999999999"});
            const std::string j = r.pick(junk);
            double v;
            if (q.dim) {
                std::vector<std::string> e;
                const int at = r.i(q.dim);
                for (int m = 0; m < q.dim; m++)
                    e.push_back(m == at ? j : put(r, q.type, v));
                entry[k] = std::string(q.name) + ":" + vec(r, e, "");
            } else
                entry[k] = std::string(q.name) + ": " + j + "\n";
            bad = std::string(q.name) + " contains " + j;
        } else if (kind == 6 && !bt.empty()) {
            const int k = r.i((int)bt.size());
            for (auto &q : bt[k])
                if (q.first == "type")
                    q.second = " " + r.pick(std::vector<std::string>{"plane", "Wall", "cylinder", "box", "spheres"}) + "\n";
            bad = vf::fmt("boundary %d of unknown type", k);
        } else if (kind == 7 && !bt.empty()) {
            const int k = r.i((int)bt.size());
            const std::string n = r.pick(bt[k]).first;
            if (bt[k].size() > 1)
                drop(bt[k], n);
            bad = vf::fmt("boundary %d without %s", k, n.c_str());
        } else if (kind == 8 && !bt.empty()) {
            const int k = r.i((int)bt.size());
            auto &q = bt[k][r.i((int)bt[k].size())];
            if (q.first == "center" || q.first == "norm" || q.first == "axis")
                q.second = r.p(0.5) ? " [1, 2]\n" : " [1, x, 2]\n";
            else if (q.first == "type")
                q.second = " [wall]\n";
            else
                q.second = " big\n";
            bad = vf::fmt("boundary %d with malformed %s", k, q.first.c_str());
        } else if (kind == 9) {
            const int w = r.i(3);
            if (w == 0) {
                noFile = true;
                bad = "no file";
            } else {
                raw = w == 1 ? "simBoxLow: [1, 2\n" : "dt: 0.1\n  viscosity: 1\n :\n";
                bad = "broken YAML";
            }
        }
        // assemble in any order
        std::vector<std::string> parts;
        for (auto &e : entry)
            if (!e.empty())
                parts.push_back(e);
        if (!bt.empty() || r.p(0.2)) {
            std::string s = "boundaries:\n";
            if (bt.empty())
                s = "boundaries: []\n";
            for (auto &t : bt)
                for (size_t k = 0; k < t.size(); k++)
                    s += std::string(k ? "    " : "  - ") + t[k].first + ":" + t[k].second;
            parts.push_back(s);
        }
        for (int k = r.i(3); k > 0; k--)
            parts.push_back(r.pick(std::vector<std::string>{"# a comment\n", "\n", "# dt: 5\n"}));
        if (r.p(0.3))
            parts.push_back("notAKey: 17\n");
        r.shuffle(parts);
        std::string text;
        for (auto &p : parts)
            text += p;
        text += raw;
        const std::string file = "cfg.yaml";
        remove(file.c_str());
        if (!noFile) {
            FILE *f = fopen(file.c_str(), "w");
            fwrite(text.data(), 1, text.size(), f);
            fclose(f);
        }
        std::vector<std::array<double, 3>> probes;
        for (size_t b = 0; b < B.size(); b++)
            for (int k = 0; k < NQ; k++)
                probes.push_back({B[b].c[0] + r.n() * 5, B[b].c[1] + r.n() * 5, B[b].c[2] + r.n() * 5});
        Out o;
        memset(&o, 0, sizeof o);
        vf::beginCase(c, "yaml " + (bad.empty() ? std::string("valid") : bad));
        const int rc = readIt(file, probes, o);
        vf::evals();
        vf::distinct(c);
        const std::string shown = text.size() > 1500 ? text.substr(0, 1500) + "..." : text;
        if (rc == 2) {
            vf::violation("config-crash", "%s: reading ended neither in a configuration nor in an error: %s", bad.c_str(), shown.c_str());
            return;
        }
        if (!bad.empty()) {
            vf::count("mistakes_made");
            VF_CHECK(rc == 1, "config-mistake-accepted", "%s: accepted without an error: %s", bad.c_str(), shown.c_str());
            if (vf::wantSample())
                vf::sample("mistake: " + bad + (rc == 1 ? " -> reported" : " -> accepted"));
            return;
        }
        vf::count("valid_files_read");
        if (rc != 0) {
            vf::violation("config-rejected", "valid file rejected: %s", shown.c_str());
            return;
        }
        for (size_t k = 0; k < K.size(); k++)
            for (int j = 0; j < std::max(K[k].dim, 1); j++) {
                const double g = o.v[K[k].at + j], w = want[K[k].at + j];
                VF_CHECK(std::fabs(g - w) <= 4e-16 * std::fabs(w), given[k] ? "config-value" : "config-default", "%s[%d] is %.17g, %s %.17g: %s", K[k].name, j, g,
                         given[k] ? "the file says" : "the default is", w, shown.c_str());
                vf::count(given[k] ? "values_compared" : "defaults_compared");
            }
        if (o.nb != (int)B.size()) {
            vf::violation("config-boundaries", "%d boundaries built, %zu in the file: %s", o.nb, B.size(), shown.c_str());
            return;
        }
        for (size_t b = 0; b < B.size(); b++) {
            VF_CHECK(o.kind[b] == B[b].kind, "config-boundary-order", "boundary %zu is of kind %d, the file says %d: %s", b, o.kind[b], B[b].kind, shown.c_str());
            auto ref = B[b].make();
            for (int k = 0; k < NQ; k++) {
                double w[6];
                ref->project(probes[b * NQ + k].data(), w, w + 3);
                double d = 0, s = 1;
                for (int j = 0; j < 6; j++) {
                    d = std::max(d, std::fabs(w[j] - o.proj[b][k][j]));
                    s = std::max(s, std::fabs(w[j]));
                }
                VF_CHECK(d <= 1e-11 * (s + B[b].R), "config-boundary", "boundary %zu projects probe %d to (%.12g,%.12g,%.12g), one built from the same numbers to (%.12g,%.12g,%.12g): %s", b, k,
                         o.proj[b][k][0], o.proj[b][k][1], o.proj[b][k][2], w[0], w[1], w[2], shown.c_str());
                vf::count("boundary_probes");
            }
        }
        if (vf::wantSample())
            vf::sample(vf::fmt("valid file, %zu keys, %zu boundaries", parts.size(), B.size()));
    });
}

// ------------------------------------------------------------------ P28
template <class T>
static std::vector<T> someValues(Rng &r, size_t n) {
    std::vector<T> v(n);
    for (auto &x : v) {
        uint64_t b = r.p(0.2) ? 0 : r.p(0.1) ? ~0ull : r.u64();
        memcpy(&x, &b, sizeof(T));
    }
    return v;
}
static std::string some(const std::string &s) { return s.size() > 200 ? s.substr(0, 200) + "..." : s; }
struct Written {
    std::string name, type;
    int nc;
    std::vector<unsigned char> raw;
};
template <class T>
static void writeArr(Rng &r, std::ofstream &f, size_t n, int nc, const std::string &name, const char *type, std::vector<Written> &w) {
    auto v = someValues<T>(r, n * nc);
    Written q{name, type, nc, {}};
    q.raw.assign((unsigned char *)v.data(), (unsigned char *)v.data() + v.size() * sizeof(T));
    const auto keep = v;
    IOHelper::writeDataArrayBase64(v, name, nc, f);
    VF_CHECK(v.size() == keep.size() && (v.empty() || !memcmp(v.data(), keep.data(), v.size() * sizeof(T))), "array-changed", "writing changed the array %s", name.c_str());
    w.push_back(q);
}
static std::string fieldsAgree(const vtkf::Node &doc, const std::string &top, const std::vector<IOHelper::FieldVTU> &pd, const std::vector<IOHelper::FieldVTU> &cd, bool cells, const std::vector<std::string> &pieces) {
    auto it = doc.attr.find("type");
    if (doc.name != "VTKFile" || it == doc.attr.end() || it->second != top)
        return "document type";
    if (!doc.attr.count("byte_order") || doc.attr.at("byte_order") != "LittleEndian" || !doc.attr.count("header_type") || doc.attr.at("header_type") != "UInt32")
        return "byte order or header type";
    if (doc.child.size() != 1 || doc.child[0].name != top)
        return "top element";
    const auto &d = doc.child[0];
    std::vector<std::string> got;
    int pts = 0;
    auto same = [&](const vtkf::Node &n, const std::vector<IOHelper::FieldVTU> &f) -> std::string {
        if (n.child.size() != f.size())
            return vf::fmt("%s declares %zu arrays, %zu were given", n.name.c_str(), n.child.size(), f.size());
        for (size_t k = 0; k < f.size(); k++) {
            static const char *T[] = {"UInt8", "Int32", "Float32", "Float64"};
            auto a = n.child[k].attr;
            if (a["Name"] != f[k].name || a["type"] != T[(int)f[k].type] || a["NumberOfComponents"] != std::to_string(f[k].dimension) || a["format"] != "binary")
                return vf::fmt("%s array %zu declared as %s %s x%s, given as %s %s x%d", n.name.c_str(), k, a["Name"].c_str(), a["type"].c_str(), a["NumberOfComponents"].c_str(), f[k].name.c_str(),
                               T[(int)f[k].type], f[k].dimension);
        }
        return "";
    };
    bool sawP = false, sawC = false;
    for (auto &n : d.child) {
        std::string e;
        if (n.name == "PPointData") {
            e = same(n, pd);
            sawP = true;
        } else if (n.name == "PCellData") {
            e = same(n, cd);
            sawC = true;
        } else if (n.name == "PPoints") {
            pts++;
            if (n.child.size() != 1 || n.child[0].attr.at("type") != "Float64" || n.child[0].attr.at("NumberOfComponents") != "3")
                e = "points";
        } else if (n.name == "Piece")
            got.push_back(n.attr.count("Source") ? n.attr.at("Source") : "?");
        else
            e = "element " + n.name;
        if (!e.empty())
            return e;
    }
    if (!sawP || (cells && !sawC) || pts != 1)
        return "a section is missing";
    return got == pieces ? "" : "pieces";
}
static bool parse(const std::string &file, vtkf::Node &n, std::string &err) {
    std::string s;
    if (!vtkf::slurp(file, s)) {
        err = "cannot read " + file;
        return false;
    }
    vtkf::Xml x(s);
    if (!x.document(n)) {
        err = x.err;
        return false;
    }
    return true;
}
template <class T>
static void vectorCase(Rng &r, size_t n, const char *type) {
    const auto v = someValues<T>(r, n);
    std::string s, err;
    B64Converter::getBase64FromVector(v, s);
    std::vector<unsigned char> h, raw;
    bool ok = s.size() >= 8 && vtkf::b64(s.substr(0, 8), h, err) && h.size() == 4;
    uint32_t nb = 0;
    if (ok)
        memcpy(&nb, h.data(), 4);
    ok = ok && vtkf::b64(s.substr(8), raw, err) && nb == n * sizeof(T) && raw.size() == nb && (nb == 0 || !memcmp(raw.data(), v.data(), nb));
    VF_CHECK(ok, "vector-encoding", "%zu values of %s: header says %u bytes, payload has %zu %s: %s", n, type, nb, raw.size(), err.c_str(), some(s).c_str());
    vf::count("vectors_encoded");
}
static void enc() {
    long lengths = 0;
    vf::forCases("enc", [&](uint64_t c, Rng &r) {
        // bytes
        for (int rep = 0; rep < 6; rep++) {
            const size_t n = r.p(0.7) ? (size_t)(lengths++ % 260) : r.i(5000);
            auto in = someValues<unsigned char>(r, n);
            if (r.p(0.3))
                for (auto &x : in)
                    x = r.pick(std::vector<int>{0, 255, 1, 128, 127, 62, 63, 251});
            vf::beginCase(c, vf::fmt("base64 of %zu bytes", n));
            const std::string pre = r.p(0.5) ? "" : "AbC=";
            std::string out = pre, err;
            const bool mark = r.p(0.2);
            std::vector<unsigned char> heap(in); // exactly n bytes
            const size_t k = mark ? B64Converter::kwsysBase64_Encode(heap.data(), n, out, true) : B64Converter::kwsysBase64_Encode(heap.data(), n, out);
            VF_CHECK(out.compare(0, pre.size(), pre) == 0 && k == out.size() - pre.size(), "encode-append", "%zu bytes: %zu characters reported, %zu appended", n, k, out.size() - pre.size());
            std::string body = out.substr(std::min(pre.size(), out.size()));
            if (mark && n % 3 == 0) {
                VF_CHECK(body.size() >= 4 && body.substr(body.size() - 4) == "====", "encode-mark", "%zu bytes: no end mark: %s", n, some(body).c_str());
                body = body.substr(0, body.size() - std::min<size_t>(4, body.size()));
            }
            std::vector<unsigned char> back;
            VF_CHECK(vtkf::b64(body, back, err) && back == in && body.size() == (n + 2) / 3 * 4, "encode", "%zu bytes: %s decodes to %zu bytes %s", n, some(body).c_str(), back.size(), err.c_str());
            // the decoder of the code
            std::vector<unsigned char> src(body.begin(), body.end());
            for (int m = 0; m < 2; m++) {
                if (m == 1 && body.empty())
                    continue; // zero means no limit
                std::vector<unsigned char> dst(n + (m ? 2 : 0), 0xAA);
                dst.insert(dst.end(), 8, 0x5C);
                const size_t g = B64Converter::kwsysBase64_Decode(src.data(), n, dst.data(), m ? src.size() : 0);
                bool ok = g == n && std::equal(in.begin(), in.end(), dst.begin());
                for (size_t q = dst.size() - 8; q < dst.size(); q++)
                    ok = ok && dst[q] == 0x5C;
                VF_CHECK(ok, "decode", "%zu bytes decoded to %zu (limit %s)", n, g, m ? "input" : "output");
            }
            if (n >= 3 && r.p(0.5)) { // stops at the first invalid character
                const size_t blk = r.i((int)(n / 3));
                auto b2 = src;
                b2[4 * blk + r.i(4)] = (unsigned char)r.pick(std::vector<int>{'\n', ' ', '*', '-', 0, 200, 255, '@', '[', '`', '{', ':', ','});
                std::vector<unsigned char> dst(n + 3, 0);
                const size_t g = B64Converter::kwsysBase64_Decode(b2.data(), n, dst.data(), b2.size());
                VF_CHECK(g == 3 * blk && std::equal(in.begin(), in.begin() + 3 * blk, dst.begin()), "decode-invalid", "%zu bytes with an invalid character in block %zu: %zu decoded", n, blk, g);
            }
            vf::count("byte_strings");
            vf::distinct(vf::mix(c, n * 8 + rep));
            vf::evals();
        }
        const size_t n = r.p(0.2) ? 0 : r.i(300);
        vectorCase<uint8_t>(r, n, "UInt8");
        vectorCase<int>(r, n, "Int32");
        vectorCase<float>(r, n, "Float32");
        vectorCase<double>(r, n, "Float64");
        // a whole file
        const bool poly = r.p(0.5);
        const std::string file = poly ? "a.vtp" : "a.vtu";
        std::vector<Written> W;
        {
            std::ofstream f(file);
            poly ? IOHelper::writeHeadVTP(f) : IOHelper::writeHeadVTU(f);
            f << "<Piece>\n";
            for (int k = r.i(0, 6); k > 0; k--) {
                const std::string name = vf::fmt("array%d", k);
                const int nc = r.pick(std::vector<int>{1, 2, 3, 4, 9});
                const size_t m = r.p(0.15) ? 0 : r.i(1, 60);
                switch (r.i(4)) {
                case 0:
                    writeArr<uint8_t>(r, f, m, nc, name, "UInt8", W);
                    break;
                case 1:
                    writeArr<int>(r, f, m, nc, name, "Int32", W);
                    break;
                case 2:
                    writeArr<float>(r, f, m, nc, name, "Float32", W);
                    break;
                default:
                    writeArr<double>(r, f, m, nc, name, "Float64", W);
                }
            }
            f << "</Piece>\n";
            poly ? IOHelper::writeTailVTP(f) : IOHelper::writeTailVTU(f);
        }
        vf::beginCase(c, "file " + file);
        vtkf::Node d;
        std::string err;
        if (!parse(file, d, err))
            vf::violation("file-malformed", "%s: %s", file.c_str(), err.c_str());
        else {
            const std::string ty = poly ? "PolyData" : "UnstructuredGrid";
            std::map<std::string, vtkf::Arr> got;
            bool ok = d.name == "VTKFile" && d.attr["type"] == ty && d.attr["byte_order"] == "LittleEndian" && d.attr["header_type"] == "UInt32" && d.child.size() == 1 && d.child[0].name == ty &&
                      d.child[0].child.size() == 1;
            VF_CHECK(ok, "file-head", "%s: head of a %s file", file.c_str(), ty.c_str());
            if (ok) {
                ok = vtkf::arrays(d.child[0].child[0], got, err) && got.size() == W.size();
                VF_CHECK(ok, "file-arrays", "%s: %zu arrays read, %zu written %s", file.c_str(), got.size(), W.size(), err.c_str());
                for (auto &w : W)
                    VF_CHECK(!ok || (got.count(w.name) && got[w.name].type == w.type && got[w.name].ncomp == w.nc && got[w.name].raw == w.raw), "file-array", "%s: array %s of %zu bytes %s x%d comes back as %zu bytes %s x%d",
                             file.c_str(), w.name.c_str(), w.raw.size(), w.type.c_str(), w.nc, got[w.name].raw.size(), got[w.name].type.c_str(), got[w.name].ncomp);
                vf::count("arrays_read_back", (long)W.size());
            }
        }
        // parallel headers
        std::vector<IOHelper::FieldVTU> pd, cd;
        std::vector<std::string> pieces;
        for (int k = r.i(0, 5); k > 0; k--)
            pd.emplace_back(r.i(1, 9), (IOHelper::IOTYPE)r.i(4), vf::fmt("p%d", k));
        for (int k = r.i(0, 5); k > 0; k--)
            cd.emplace_back(r.i(1, 9), (IOHelper::IOTYPE)r.i(4), vf::fmt("c%d", k));
        for (int k = r.i(0, 12); k > 0; k--)
            pieces.push_back(vf::fmt("./piece_r%d_%d.vtp", k, r.i(100)));
        for (int k = 0; k < 4; k++) {
            const std::string pf = vf::fmt("h%d.xml", k);
            if (k == 0)
                IOHelper::writePVTUFile(pf, pd, pieces);
            else if (k == 1)
                IOHelper::writePVTUFile(pf, pd, cd, pieces);
            else if (k == 2)
                IOHelper::writePVTPFile(pf, pd, pieces);
            else
                IOHelper::writePVTPFile(pf, pd, cd, pieces);
            vtkf::Node h;
            std::string e;
            if (parse(pf, h, err))
                e = fieldsAgree(h, k < 2 ? "PUnstructuredGrid" : "PPolyData", pd, cd, k & 1, pieces);
            else
                e = err;
            VF_CHECK(e.empty(), "parallel-header", "%s with %zu point, %zu cell arrays, %zu pieces: %s", k < 2 ? "PVTU" : "PVTP", pd.size(), cd.size(), pieces.size(), e.c_str());
            vf::count("parallel_headers");
        }
        // grids
        int lo[3], hi[3];
        double sp[3], og[3];
        for (int k = 0; k < 3; k++) {
            lo[k] = r.i(-1000, 1000);
            hi[k] = lo[k] + r.i(0, 1000);
            sp[k] = r.logu(1e-3, 1e3);
            og[k] = r.n() * 100;
        }
        for (int k = 0; k < 2; k++) {
            const std::string gf = k ? "g.vti" : "g.vtr";
            {
                std::ofstream f(gf);
                if (k) {
                    IOHelper::writeHeadVTI(f, lo, hi, sp, og);
                    IOHelper::writeTailVTI(f);
                } else {
                    IOHelper::writeHeadVTR(f, lo, hi);
                    IOHelper::writeTailVTR(f);
                }
            }
            vtkf::Node g;
            bool ok = parse(gf, g, err) && g.child.size() == 1;
            if (ok) {
                auto a = g.child[0].attr;
                ok = g.attr["type"] == (k ? "ImageData" : "RectilinearGrid") && g.child[0].name == g.attr["type"];
                std::istringstream ex(a["WholeExtent"]), so(a["Origin"]), ss(a["Spacing"]);
                for (int q = 0; q < 3; q++) {
                    int x = -(1 << 30), y = x;
                    ex >> x >> y;
                    ok = ok && x == lo[q] && y == hi[q];
                }
                for (int q = 0; k && q < 3; q++) {
                    double x = 1e300, y = 1e300;
                    so >> x;
                    ss >> y;
                    ok = ok && std::fabs(x - og[q]) <= 1e-5 * std::fabs(og[q]) && std::fabs(y - sp[q]) <= 1e-5 * sp[q];
                }
            }
            VF_CHECK(ok, "grid-head", "%s does not hold the given extent, origin and spacing %s", gf.c_str(), err.c_str());
        }
        // folders
        const std::string dir = vf::fmt("d%d", r.i(5));
        const bool had = IOHelper::fileExist(dir + "/f");
        struct stat sb;
        const bool was = stat((dir + "/f").c_str(), &sb) == 0;
        IOHelper::makeSubFolder(dir);
        IOHelper::makeSubFolder(dir);
        VF_CHECK(had == was && stat(dir.c_str(), &sb) == 0 && S_ISDIR(sb.st_mode), "folder", "folder %s", dir.c_str());
        std::ofstream(dir + "/f") << "x";
        VF_CHECK(IOHelper::fileExist(dir + "/f") && !IOHelper::fileExist(dir + "/g"), "file-exists", "in %s", dir.c_str());
        if (r.p(0.3)) {
            fflush(nullptr);
            const pid_t p = fork();
            if (p == 0) {
                errno = 0;
                IOHelper::makeSubFolder("no/such/parent");
                _exit(0);
            }
            int st = 0;
            waitpid(p, &st, 0);
            VF_CHECK(WIFEXITED(st) && WEXITSTATUS(st) != 0, "folder-error", "a folder that cannot be made was not reported");
        }
        if (vf::wantSample())
            vf::sample(vf::fmt("byte strings, vectors of %zu, file of %zu arrays, headers with %zu pieces", n, W.size(), pieces.size()));
        vf::evals();
        vf::distinct(c);
    });
}

int main(int argc, char **argv) {
    vf::init(argc, argv, 0, 1);
    if (!getenv("VF_LOUD") && !freopen("/dev/null", "w", stdout))
        return 3;
    spdlog::set_level(spdlog::level::off);
    const std::string m = vf::st().mode;
    if (m == "yaml")
        yaml();
    else if (m == "enc")
        enc();
    else
        return 3;
    return vf::finish();
}
