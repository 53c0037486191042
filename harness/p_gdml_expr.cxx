// P28: numbers, units, definitions and loops of a GDML file mean what GDML says.
// Everything is driven through siren::detector::ParseGDML on generated files and read back from the
// parsed definitions.
#include "vc.h"
#include "SIREN/detector/GDMLParser.h"
#include <algorithm>
#include <fstream>
#include <memory>
#include <stdexcept>
using namespace siren::detector;

static std::string scratch() {
    static std::string d;
    if (d.empty()) {
        char const *t = getenv("VERIF_SCRATCH");
        std::string base = t ? t : "/tmp";
        std::string tpl = base + "/gdmlXXXXXX";
        std::vector<char> b(tpl.begin(), tpl.end()); b.push_back(0);
        if (!mkdtemp(b.data())) { perror("mkdtemp"); exit(2); }
        d = b.data();
    }
    return d;
}
static void cleanup() { std::string d = scratch(); unlink((d + "/f.gdml").c_str()); rmdir(d.c_str()); }

static std::string doc(std::string const &define) {
    return "<gdml><define>" + define + "</define><materials/><solids/><structure/><setup name=\"D\" version=\"1.0\"><world ref=\"W\"/></setup></gdml>";
}
static GDMLData parse(std::string const &text, bool strict = false) {
    std::string path = scratch() + "/f.gdml";
    FILE *f = fopen(path.c_str(), "w");
    if (!f) { perror("scratch"); exit(2); }
    fwrite(text.data(), 1, text.size(), f);
    fclose(f);
    GDMLParseOptions o; o.strict = strict;
    vc::step();
    return ParseGDML(path, o);
}

// ---------------------------------------------------------------------------------------------------
// The reference: a recursive descent reading of the usual grammar.
struct Unspecified : std::runtime_error { using std::runtime_error::runtime_error; };
struct Bad : std::runtime_error { using std::runtime_error::runtime_error; };
struct Ref {
    std::string s; size_t p = 0;
    std::map<std::string, double> const &names;
    std::map<std::string, std::pair<int, std::vector<double>>> const &mats;
    Ref(std::string t, std::map<std::string, double> const &n, std::map<std::string, std::pair<int, std::vector<double>>> const &m) : s(std::move(t)), names(n), mats(m) {}
    void ws() { while (p < s.size() && (s[p] == ' ' || s[p] == '\t')) ++p; }
    bool eat(char c) { ws(); if (p < s.size() && s[p] == c) { ++p; return true; } return false; }
    double all() { double v = sum(); ws(); if (p != s.size()) throw Bad("rest"); return v; }
    double sum() {
        double v = prod();
        for (;;) { if (eat('+')) v = v + prod(); else if (eat('-')) v = v - prod(); else return v; }
    }
    double prod() {
        double v = sign();
        for (;;) {
            if (eat('*')) v = v * sign();
            else if (eat('/')) { double d = sign(); if (d == 0) throw Bad("division by zero"); v = v / d; }
            else return v;
        }
    }
    double sign() { if (eat('-')) return -sign(); if (eat('+')) return sign(); return power(); }
    double power() { double b = atom(); if (eat('^')) return std::pow(b, sign()); return b; }
    static bool dig(char c) { return c >= '0' && c <= '9'; }
    static bool idc(char c) { return dig(c) || c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
    double atom() {
        ws();
        if (p >= s.size()) throw Bad("end");
        if (eat('(')) { double v = sum(); if (!eat(')')) throw Bad("paren"); return v; }
        if (dig(s[p]) || s[p] == '.') {
            size_t q = p; bool d = false;
            while (q < s.size() && dig(s[q])) { ++q; d = true; }
            if (q < s.size() && s[q] == '.') { ++q; while (q < s.size() && dig(s[q])) { ++q; d = true; } }
            if (!d) throw Bad("lone point");
            if (q < s.size() && (s[q] == 'e' || s[q] == 'E')) {
                size_t r = q + 1; if (r < s.size() && (s[r] == '+' || s[r] == '-')) ++r;
                if (r < s.size() && dig(s[r])) { while (r < s.size() && dig(s[r])) ++r; q = r; }
            }
            std::string num = s.substr(p, q - p); p = q;
            double v = std::strtod(num.c_str(), nullptr);
            if (!std::isfinite(v)) throw Bad("range");
            return v;
        }
        if (idc(s[p])) {
            size_t q = p; while (q < s.size() && idc(s[q])) ++q;
            std::string id = s.substr(p, q - p); p = q;
            if (eat('(')) {
                std::vector<double> a; a.push_back(sum());
                while (eat(',')) a.push_back(sum());
                if (!eat(')')) throw Bad("call");
                return call(id, a);
            }
            if (eat('[')) {
                auto it = mats.find(id); if (it == mats.end()) throw Bad("matrix");
                std::vector<double> a; a.push_back(sum());
                while (eat(',')) a.push_back(sum());
                if (!eat(']')) throw Bad("bracket");
                int cols = it->second.first, n = (int)it->second.second.size(), rows = n / cols;
                for (double x : a) if (std::fabs(x - std::nearbyint(x)) > 1e-6) throw Unspecified("fractional index");
                if (a.size() == 1) { int i = (int)std::nearbyint(a[0]); if (i < 1 || i > n) throw Bad("index"); return it->second.second[i - 1]; }
                if (a.size() != 2) throw Bad("indices");
                int r = (int)std::nearbyint(a[0]), c = (int)std::nearbyint(a[1]);
                if (r < 1 || r > rows || c < 1 || c > cols) throw Bad("index");
                return it->second.second[(r - 1) * cols + c - 1];
            }
            auto it = names.find(id); if (it == names.end()) throw Bad("name");
            return it->second;
        }
        throw Bad("character");
    }
    static double call(std::string const &f, std::vector<double> const &a) {
        if (a.size() == 1) {
            double x = a[0];
            if (f == "sin") return std::sin(x);
            if (f == "cos") return std::cos(x);
            if (f == "tan") return std::tan(x);
            if (f == "asin") return std::asin(x);
            if (f == "acos") return std::acos(x);
            if (f == "atan") return std::atan(x);
            if (f == "exp") return std::exp(x);
            if (f == "log") return std::log(x);
            if (f == "sqrt") return std::sqrt(x);
            if (f == "abs") return std::fabs(x);
        } else if (a.size() == 2) {
            double x = a[0], y = a[1];
            if (f == "pow") return std::pow(x, y);
            if (f == "atan2") return std::atan2(x, y);
            if (f == "min") return std::min(x, y);
            if (f == "max") return std::max(x, y);
        }
        throw Bad("function");
    }
};
using Names = std::map<std::string, double>;
using Mats = std::map<std::string, std::pair<int, std::vector<double>>>;
static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)) || vc::close(a, b, 1e-13); }

static std::string const PRE = "<constant name=\"a\" value=\"3\"/><matrix name=\"t\" coldim=\"2\" values=\"10 20 30 40\"/>";
static Names const N0 = {{"a", 3.0}, {"e", 2.7182818284590452354}, {"pi", M_PI}};
static Mats const M0 = {{"t", {2, {10, 20, 30, 40}}}};

static bool refval(std::string const &e, double &v) {
    try { v = Ref(e, N0, M0).all(); return true; } catch (Bad const &) { return false; }
}

// Compares a list of expressions: the valid ones many to a file, the others one to a file.
static void compare(std::vector<std::string> const &exprs) {
    std::vector<std::pair<std::string, double>> good;
    std::function<void(size_t, size_t)> batch = [&](size_t b, size_t e) {
        if (b >= e) return;
        std::string d = PRE;
        for (size_t i = b; i < e; ++i) d += "<constant name=\"r" + std::to_string(i) + "\" value=\"" + good[i].first + "\"/>";
        vc::note(e - b == 1 ? vc::cat("expression ", good[b].first) : vc::cat("expressions ", good[b].first, " .. ", good[e - 1].first));
        try {
            GDMLData r = parse(doc(d));
            for (size_t i = b; i < e; ++i) {
                double v = r.constants["r" + std::to_string(i)];
                VC_EXPECT(same(v, good[i].second), "value", "the expression '", good[i].first, "' is read as ", v, " instead of ", good[i].second);
            }
        } catch (std::exception const &x) {
            if (e - b == 1) { VC_EXPECT(false, "valid-refused", "the expression '", good[b].first, "' (value ", good[b].second, ") is refused: ", x.what()); return; }
            size_t m = (b + e) / 2; batch(b, m); batch(m, e);
        }
    };
    for (auto const &e : exprs) {
        ++vc::R.states;
        double v;
        try { refval(e, v); } catch (Unspecified const &) { vc::count("unspecified"); continue; }
        if (refval(e, v)) { good.push_back({e, v}); continue; }
        vc::note("malformed expression " + e);
        try {
            GDMLData r = parse(doc(PRE + "<constant name=\"r\" value=\"" + e + "\"/>"));
            VC_EXPECT(false, "malformed-accepted", "the malformed expression '", e, "' is read as ", r.constants["r"]);
        } catch (std::runtime_error const &) { ++vc::R.evaluations; vc::count("malformed refused"); }
    }
    vc::count("valid", good.size());
    for (size_t b = 0; b < good.size(); b += 256) batch(b, std::min(good.size(), b + 256));
}
static void strings(std::vector<std::string> const &alpha, int maxlen, std::string const &sep, int first, int of) {
    std::vector<std::string> out;
    std::function<void(std::string const &, int)> rec = [&](std::string const &s, int n) {
        if (n > 0) out.push_back(s);
        if (out.size() >= 20000) { compare(out); out.clear(); }
        if (n == maxlen) return;
        for (size_t i = 0; i < alpha.size(); ++i) {
            if (n == 0 && (int)(i % of) != first) continue;
            rec(n ? s + sep + alpha[i] : alpha[i], n + 1);
        }
    };
    rec("", 0);
    compare(out);
}
static std::vector<std::string> const FULL = {"2", "a", "0.5", "+", "-", "*", "/", "^", "(", ")", ",", "sqrt", "pow", "t[2]", "q"};
static std::vector<std::string> const ARITH = {"2", "a", "-", "*", "^", "(", ")"};
static std::vector<std::string> const CALLS = {"2", "a", ",", "max(", "abs(", ")", "-"};
static std::vector<std::string> const LITERAL = {"0", "1", "9", ".", "e", "-", "+"};
static std::vector<std::string> const INDEX = {"t[", "]", ",", "1", "2", "-", "min(", ")"};

static void words() {
    // whole spellings, alone and inside a sum
    std::vector<std::string> w = {"inf", "nan", "infinity", "INF", "NaN", "0x10", "1e5", "1E5", "1.5.2", "..", ".", "1_0", "9e999", "-9e999", "1,5", "1 2", "a a", "a2", "_a", "2a", "sin", "pow", "t", "t[", "t[]", "t[1",
        "t[1]]", "t[0]", "t[5]", "t[1,1]", "t[1,2]", "t[2,1]", "t[2,2]", "t[1,3]", "t[1,4]", "t[2,0]", "t[3,0]", "t[3,1]", "t[0,3]", "t[0,1]", "t[-1,5]", "t[1,2,1]", "t[t[1]/10]", "t[min(1,2)]", "t[max(1,2),min(1,2)]", "t[a-1]", "t[a]", "t[a,1]",
        "u[1]", "sin(0)", "cos(0)", "tan(1)", "asin(1)", "acos(1)", "atan(1)", "exp(1)", "log(2)", "sqrt(4)", "abs(-2)", "pow(2,3)", "atan2(1,2)", "min(1,2)", "max(1,2)", "sin(1,2)", "pow(2)", "pow(1,2,3)", "sin()", "foo(1)", "pow(,2)", "pow(2,)", "sin (1)", "pow ( 2 , 3 )",
        "2^3^2", "-2^2", "2^-1", "(-2)^2", "2^-2^2", "1-2-3", "8/4/2", "2*3^2", "--2", "-+2", "1/0", "1/(a-3)", "0^0", "pi", "e", "2e", "2e3", "2e-3", "2e+3", "2 e3", "#", "a&amp;b", "1;2", "1=1", "a%2", "[1]", "1[1]", "(t)[1]", "\t2", "2\t", "2\n"};
    std::vector<std::string> out;
    for (auto const &x : w) {
        if (x == "0x10") continue;                       // hexadecimal spellings are not part of the question
        if (x == "2\n") { out.push_back("2"); continue; }
        out.push_back(x);
        for (char const *f : {"0+%", "%+0", "(%)", "-%", "1*%", "abs(%)", "max(%,%)", " % "}) {
            std::string s;
            for (char const *c = f; *c; ++c) { if (*c == '%') s += x; else s += *c; }
            out.push_back(s);
        }
    }
    compare(out);
}

// ---------------------------------------------------------------------------------------------------
struct Unit { char const *name; GDMLQuantityType type; double si; };       // in m, rad, eV, s, kg/m3
static std::vector<Unit> units() {
    auto L = GDMLQuantityType::LENGTH, A = GDMLQuantityType::ANGLE, E = GDMLQuantityType::ENERGY, T = GDMLQuantityType::TIME, D = GDMLQuantityType::DENSITY;
    return {{"mm", L, 1e-3}, {"millimeter", L, 1e-3}, {"cm", L, 1e-2}, {"centimeter", L, 1e-2}, {"m", L, 1}, {"meter", L, 1}, {"km", L, 1e3}, {"kilometer", L, 1e3},
        {"um", L, 1e-6}, {"micrometer", L, 1e-6}, {"nm", L, 1e-9}, {"nanometer", L, 1e-9}, {"angstrom", L, 1e-10}, {"fermi", L, 1e-15}, {"inch", L, 0.0254}, {"in", L, 0.0254},
        {"rad", A, 1}, {"radian", A, 1}, {"mrad", A, 1e-3}, {"milliradian", A, 1e-3}, {"deg", A, M_PI / 180}, {"degree", A, M_PI / 180},
        {"eV", E, 1}, {"keV", E, 1e3}, {"MeV", E, 1e6}, {"GeV", E, 1e9}, {"TeV", E, 1e12}, {"PeV", E, 1e15}, {"joule", E, 1 / 1.602176634e-19},
        {"ns", T, 1e-9}, {"nanosecond", T, 1e-9}, {"ps", T, 1e-12}, {"picosecond", T, 1e-12}, {"us", T, 1e-6}, {"microsecond", T, 1e-6}, {"ms", T, 1e-3}, {"millisecond", T, 1e-3}, {"second", T, 1},
        {"g/cm3", D, 1000}, {"mg/cm3", D, 1}, {"kg/m3", D, 1}};
}
static double base(GDMLQuantityType t) {          // the storage unit: mm, rad, MeV, ns, g/cm3
    switch (t) { case GDMLQuantityType::LENGTH: return 1e-3; case GDMLQuantityType::ENERGY: return 1e6; case GDMLQuantityType::TIME: return 1e-9; case GDMLQuantityType::DENSITY: return 1000; default: return 1; }
}
static std::string solids(std::string const &define, std::string const &solid) {
    return "<gdml><define>" + define + "</define><materials/><solids>" + solid + "</solids><structure/><setup name=\"D\" version=\"1.0\"><world ref=\"W\"/></setup></gdml>";
}
static double halfwidth(GDMLData const &d, std::string const &n) {
    auto it = d.solids.find(n);
    if (it == d.solids.end()) return -1;
    return it->second->GetBoundingBox().max_corner.GetX();
}
static void quantities() {
    for (auto const &u : units()) {
        std::string q = std::string("<quantity name=\"q\" value=\"3\" unit=\"") + u.name + "\"/>";
        vc::note(q); ++vc::R.states;
        try {
            GDMLData d = parse(doc(q));
            VC_EXPECT(vc::close(d.constants["q"], 3 * u.si / base(u.type), 1e-12), "quantity", "3 ", u.name, " is stored as ", d.constants["q"]);
            VC_EXPECT(d.quantity_types["q"] == u.type, "quantity-type", "unit ", u.name, " has the wrong kind");
        } catch (std::exception const &x) { VC_EXPECT(false, "quantity", u.name, ": ", x.what()); }
        for (char const *ty : {"length", "coordinate", "angle", "energy", "time", "density", "temperature"}) {
            GDMLQuantityType want = !strcmp(ty, "length") || !strcmp(ty, "coordinate") ? GDMLQuantityType::LENGTH : !strcmp(ty, "angle") ? GDMLQuantityType::ANGLE : !strcmp(ty, "energy") ? GDMLQuantityType::ENERGY
                : !strcmp(ty, "time") ? GDMLQuantityType::TIME : !strcmp(ty, "density") ? GDMLQuantityType::DENSITY : GDMLQuantityType::TEMPERATURE;
            std::string t = std::string("<quantity name=\"q\" type=\"") + ty + "\" value=\"3\" unit=\"" + u.name + "\"/>";
            vc::note(t); ++vc::R.states;
            for (bool strict : {false, true}) {
                try {
                    GDMLData d = parse(doc(t), strict);
                    VC_EXPECT(vc::close(d.constants["q"], 3 * u.si / base(u.type), 1e-12), "quantity", "3 ", u.name, " typed ", ty, " is stored as ", d.constants["q"]);
                    VC_EXPECT(!strict || want == u.type, "conflict-strict", "a ", ty, " in ", u.name, " is accepted in strict mode");
                    VC_EXPECT(d.warnings.empty() == (want == u.type), "conflict-warning", "a ", ty, " in ", u.name, ": ", d.warnings.size(), " warnings");
                } catch (std::exception const &x) { VC_EXPECT(strict && want != u.type, "quantity", u.name, " typed ", ty, ": ", x.what()); }
            }
        }
        if (u.type != GDMLQuantityType::DENSITY) {
            // a unit is also a name of an expression, with the value it has as a unit
            GDMLData d = parse(doc(std::string("<constant name=\"c\" value=\"3*") + u.name + "\"/>"));
            VC_EXPECT(vc::close(d.constants["c"], 3 * u.si / base(u.type), 1e-12), "unit-name", "3*", u.name, " is ", d.constants["c"]);
            ++vc::R.states;
            // names of units cannot be redefined, however that is tried
            for (char const *how : {"<constant name=\"%\" value=\"7\"/>", "<variable name=\"%\" value=\"7\"/>", "<quantity name=\"%\" value=\"7\"/>", "<loop for=\"%\" from=\"7\" to=\"8\"><variable name=\"z\" value=\"1\"/></loop>"}) {
                std::string t; for (char const *c = how; *c; ++c) if (*c == '%') t += u.name; else t += *c;
                vc::note(t); ++vc::R.states;
                GDMLData r = parse(doc(t + "<constant name=\"c\" value=\"3*" + u.name + "\"/>"));
                VC_EXPECT(vc::close(r.constants["c"], 3 * u.si / base(u.type), 1e-12) && !r.warnings.empty(), "unit-redefined", t, " changes the unit to ", r.constants["c"] / 3, " or passes without warning");
            }
        }
        // use: as unit of a position, a rotation and a solid, directly and through a quantity
        std::string un = u.name;
        for (int way = 0; way < 2; ++way) {
            if (u.type == GDMLQuantityType::DENSITY) continue;
            std::string val = way ? "q" : "3", us = way ? "" : " unit=\"" + un + "\"", lu = way ? "" : " lunit=\"" + un + "\"", pre = way ? "<quantity name=\"q\" value=\"3\" unit=\"" + un + "\"/>" : "";
            bool len = u.type == GDMLQuantityType::LENGTH, ang = u.type == GDMLQuantityType::ANGLE;
            vc::note(vc::cat("use of ", un, way ? " through a quantity" : "")); ++vc::R.states;
            if (way && !len && !ang) continue;
            bool threw = false;
            try {
                GDMLData d = parse(doc(pre + "<position name=\"p\" x=\"" + val + "\" y=\"-" + val + "\" z=\"2*" + val + "\"" + us + "/>"));
                if (len) VC_EXPECT(vc::close(d.positions["p"].GetX(), 3 * u.si, 1e-12) && vc::close(d.positions["p"].GetY(), -3 * u.si, 1e-12) && vc::close(d.positions["p"].GetZ(), 6 * u.si, 1e-12),
                    "position", "3 ", un, " is read as ", d.positions["p"].GetX(), " m");
            } catch (std::runtime_error const &) { threw = true; }
            if (!way || len) VC_EXPECT(threw == !len, "position-unit", "a position in ", un, threw ? " is refused" : " is accepted");
            threw = false;
            try {
                GDMLData d = parse(solids(pre, "<box name=\"b\" x=\"" + val + "\" y=\"" + val + "\" z=\"" + val + "\"" + lu + "/>"));
                if (len) VC_EXPECT(vc::close(halfwidth(d, "b"), 1.5 * u.si, 1e-12), "solid-length", "a box of 3 ", un, " has half width ", halfwidth(d, "b"), " m");
            } catch (std::runtime_error const &) { threw = true; }
            if (!way || len) VC_EXPECT(threw == !len, "solid-unit", "a box in ", un, threw ? " is refused" : " is accepted");
            threw = false;
            std::string small = way ? "q/10" : "0.3";
            try {
                GDMLData d = parse(doc(pre + "<rotation name=\"r\" z=\"" + small + "\"" + us + "/>"));
                if (ang) {
                    siren::math::Vector3D v = d.rotations["r"].rotate(siren::math::Vector3D(1, 0, 0), false);
                    VC_EXPECT(std::fabs(v.GetX() - std::cos(0.3 * u.si)) < 1e-12 && std::fabs(std::fabs(v.GetY()) - std::fabs(std::sin(0.3 * u.si))) < 1e-12, "rotation", "0.3 ", un, " turns x to ", v.GetX(), ",", v.GetY());
                }
            } catch (std::runtime_error const &) { threw = true; }
            if (!way || ang) VC_EXPECT(threw == !ang, "rotation-unit", "a rotation in ", un, threw ? " is refused" : " is accepted");
        }
    }
    // names that are no units
    for (char const *bad : {"xyz", "metre", "MM", "Cm", "degrees", "g", "1", "mm "}) {
        for (std::string t : {std::string("<position name=\"p\" x=\"1\" unit=\"") + bad + "\"/>", std::string("<rotation name=\"p\" x=\"1\" unit=\"") + bad + "\"/>", std::string("<quantity name=\"p\" value=\"1\" unit=\"") + bad + "\"/>"}) {
            vc::note(t); ++vc::R.states;
            bool threw = false;
            try { parse(doc(t)); } catch (std::runtime_error const &) { threw = true; }
            VC_EXPECT(threw, "unknown-unit", t, " is accepted");
        }
    }
    // defaults: mm and rad
    GDMLData d = parse(doc("<position name=\"p\" x=\"3\"/><rotation name=\"r\" z=\"0.3\"/>"));
    VC_EXPECT(vc::close(d.positions["p"].GetX(), 3e-3, 1e-12), "default-unit", "x=3 without unit is ", d.positions["p"].GetX(), " m");
    VC_EXPECT(std::fabs(d.rotations["r"].rotate(siren::math::Vector3D(1, 0, 0), false).GetX() - std::cos(0.3)) < 1e-12, "default-unit", "an angle without unit is not in radians");
}

// ---------------------------------------------------------------------------------------------------
// Programs of definitions: the reference executes them.
struct World { Names c; Mats m; std::map<std::string, std::array<double, 3>> p; };
struct Stmt {
    std::string xml;                                    // with names as written
    std::function<void(World &)> run;
};
static long ival(double v) { return (long)(v + (v < 0 ? -1e-6 : 1e-6)); }
static std::string nm(std::string const &pre, double v) { return pre + std::to_string(ival(v)); }
static double ev(World &w, std::string const &e) { return Ref(e, w.c, w.m).all(); }
// the statements; V is the loop variable they speak about
static std::vector<Stmt> statements(std::string const &V) {
    std::vector<Stmt> s;
    auto at = [](std::string t, std::string const &v) { std::string o; for (char c : t) if (c == '$') o += v; else o += c; return o; };
    s.push_back({at("<variable name=\"s\" value=\"s+$\"/>", V), [=](World &w) { w.c["s"] = w.c["s"] + w.c[V]; }});
    s.push_back({at("<constant name=\"c[10*$]\" value=\"$*10+s\"/>", V), [=](World &w) { w.c[nm("c", 10 * w.c[V])] = w.c[V] * 10 + w.c["s"]; }});
    s.push_back({at("<variable name=\"k\" value=\"t[$]+k\"/>", V), [=](World &w) { w.c["k"] = ev(w, "t[" + V + "]+k"); }});
    s.push_back({at("<variable name=\"k\" value=\"t[2,$]-t[$,1]\"/>", V), [=](World &w) { w.c["k"] = ev(w, "t[2," + V + "]-t[" + V + ",1]"); }});
    s.push_back({at("<position name=\"p[10*$]\" x=\"$\" y=\"-$\" z=\"s\" unit=\"cm\"/>", V), [=](World &w) { w.p[nm("p", 10 * w.c[V])] = {w.c[V] * 0.01, -w.c[V] * 0.01, w.c["s"] * 0.01}; }});
    s.push_back({at("<quantity name=\"q_[10*$+1]\" value=\"$\" unit=\"cm\"/>", V), [=](World &w) { w.c[nm("q_", 10 * w.c[V] + 1)] = w.c[V] * 10; }});
    s.push_back({at("<matrix name=\"t\" coldim=\"2\" values=\"$ 2*$ 3*$ 4*$\"/>", V), [=](World &w) { double i = w.c[V]; w.m["t"] = {2, {i, 2 * i, 3 * i, 4 * i}}; }});
    s.push_back({at("<constant name=\"sq[10*$]\" value=\"$^2-2^-$\"/>", V), [=](World &w) { w.c[nm("sq", 10 * w.c[V])] = std::pow(w.c[V], 2) - std::pow(2, -w.c[V]); }});
    s.push_back({at("<variable name=\"s\" value=\"k[2*$-1]+s\"/>", V), [=](World &w) { w.c["s"] = ev(w, nm("k", 2 * w.c[V] - 1) + "+s"); }});   // a name put together: k1, k3 exist
    return s;
}
struct Header { double from, to, step; std::string f, t, s; };
static std::vector<Header> headers() {
    std::vector<Header> h;
    for (double f : {-1.0, 1.0, 2.0}) for (double t : {-1.0, 1.0, 2.0}) for (double s : {1.0, -1.0, 2.0}) h.push_back({f, t, s, vc::cat(f), vc::cat(t), vc::cat(s)});
    h.push_back({1, 3, 1, "1", "a", ""}); h.push_back({1, 2, 0.1, "1", "2", "0.1"}); h.push_back({0, 0.7, 0.1, "0", "0.7", "0.1"}); h.push_back({0.3, -0.3, -0.1, "0.3", "-0.3", "-0.1"});
    h.push_back({1, 2, 0.25, "1", "a-1", "1/4"}); h.push_back({1, 2, 1, "", "2", "1"});      // from the value the variable has
    return h;
}
static bool exec_loop(World &w, Header const &h, std::string const &v, std::function<void(World &)> const &body) {
    int n = 0;
    long count = (long)std::floor((h.to - h.from) / h.step + 1e-6);
    if (count < 0) return false;
    // the variable runs from, from+step, ...
    w.c[v] = h.from;
    for (;; ) { body(w); if (n++ >= count) break; w.c[v] = w.c[v] + h.step; }
    return true;
}
static std::string loop(Header const &h, std::string const &v, std::string const &body) {
    std::string x = "<loop for=\"" + v + "\"";
    if (!h.f.empty()) x += " from=\"" + h.f + "\"";
    x += " to=\"" + h.t + "\"";
    if (!h.s.empty()) x += " step=\"" + h.s + "\"";
    return x + ">" + body + "</loop>";
}
static std::string const DPRE = "<constant name=\"a\" value=\"3\"/><matrix name=\"t\" coldim=\"2\" values=\"10 20 30 40\"/><variable name=\"s\" value=\"0\"/><variable name=\"k\" value=\"5\"/><constant name=\"k1\" value=\"100\"/><constant name=\"k3\" value=\"200\"/><variable name=\"i\" value=\"1\"/><variable name=\"j\" value=\"7\"/>";
static World dstart() { World w; w.c = {{"a", 3}, {"s", 0}, {"k", 5}, {"k1", 100}, {"k3", 200}, {"i", 1}, {"j", 7}, {"e", 2.7182818284590452354}, {"pi", M_PI}}; w.m["t"] = {2, {10, 20, 30, 40}}; return w; }
static void program(std::string const &xml, std::function<void(World &)> const &run, std::vector<std::string> const &split = {}) {
    ++vc::R.states; vc::note(xml);
    World w = dstart(); bool bad = false; std::string why;
    try { run(w); } catch (Bad const &b) { bad = true; why = b.what(); }
    catch (Unspecified const &) { vc::count("unspecified"); return; }
    try {
        std::string text = split.empty() ? doc(DPRE + xml) : split[0];
        GDMLData d = parse(text);
        if (bad) { VC_EXPECT(false, "program-accepted", xml, " is accepted although ", why); return; }
        for (auto const &x : w.c) {
            auto it = d.constants.find(x.first);
            VC_EXPECT(it != d.constants.end(), "definition-missing", xml, ": ", x.first, " (", x.second, ") is not defined");
            if (it != d.constants.end()) VC_EXPECT(vc::close(it->second, x.second, 1e-9, 1e-12), "definition-value", xml, ": ", x.first, " is ", it->second, " instead of ", x.second);
        }
        for (auto const &x : w.p) {
            auto it = d.positions.find(x.first);
            VC_EXPECT(it != d.positions.end() && vc::close(it->second.GetX(), x.second[0], 1e-9, 1e-12) && vc::close(it->second.GetY(), x.second[1], 1e-9, 1e-12) && vc::close(it->second.GetZ(), x.second[2], 1e-9, 1e-12), "position-value", xml, ": ", x.first);
        }
        VC_EXPECT(d.positions.size() == w.p.size(), "positions", xml, ": ", d.positions.size(), " positions instead of ", w.p.size());
        size_t own = 0; for (auto const &c : d.constants) if (c.first.size() && (c.first[0] == 'c' || c.first[0] == 'q' || c.first.compare(0, 2, "sq") == 0) && c.first.find_first_of("0123456789") != std::string::npos && c.first.find('/') == std::string::npos) ++own;
        size_t want = 0; for (auto const &c : w.c) if ((c.first[0] == 'c' || c.first[0] == 'q' || c.first.compare(0, 2, "sq") == 0) && c.first.find_first_of("0123456789") != std::string::npos) ++want;
        VC_EXPECT(own == want, "definitions", xml, ": ", own, " generated names instead of ", want);
    } catch (std::runtime_error const &x) { VC_EXPECT(bad, "program-refused", xml, ": ", x.what()); }
    vc::trace();
}
static void loops1(int part, int of) {
    auto S = statements("i"); int k = 0;
    for (auto const &h : headers()) for (size_t a = 0; a < S.size(); ++a) {
        if (k++ % of != part) continue;
        program(loop(h, "i", S[a].xml), [&](World &w) { exec_loop(w, h, "i", S[a].run); });
        for (size_t b = 0; b < S.size(); ++b) {
            program(loop(h, "i", S[a].xml + S[b].xml), [&](World &w) { exec_loop(w, h, "i", [&](World &x) { S[a].run(x); S[b].run(x); }); });
            // before, inside, after
            auto O = statements("i");
            if (a == 8) continue;                      // names are put together in loops only
            program(O[a].xml + loop(h, "i", S[b].xml) + O[a].xml, [&](World &w) { O[a].run(w); exec_loop(w, h, "i", S[b].run); O[a].run(w); });
        }
    }
}
static void loops2(int part, int of) {
    auto SI = statements("i"), SJ = statements("j"); int k = 0;
    std::vector<Header> H = {{1, 2, 1, "1", "2", "1"}, {2, 1, -1, "2", "1", "-1"}, {1, 2, 0.5, "1", "2", "0.5"}, {1, 0, 1, "1", "0", "1"}};
    for (auto const &h : H) for (auto const &g : H) for (int dep = 0; dep < 3; ++dep) for (size_t a = 0; a < SI.size(); ++a) for (size_t b = 0; b < SJ.size(); ++b) {
        if (k++ % of != part) continue;
        Header g2 = g;
        if (dep == 1) g2.t = "i"; if (dep == 2) { g2.f = "i"; }
        auto inner = [&](World &x) { Header q = g2; if (dep == 1) q.to = x.c["i"]; if (dep == 2) q.from = x.c["i"]; exec_loop(x, q, "j", SJ[b].run); };
        program(loop(h, "i", SI[a].xml + loop(g2, "j", SJ[b].xml)), [&](World &w) { exec_loop(w, h, "i", [&](World &x) { SI[a].run(x); inner(x); }); });
        program(loop(h, "i", loop(g2, "j", SJ[b].xml) + SI[a].xml), [&](World &w) { exec_loop(w, h, "i", [&](World &x) { inner(x); SI[a].run(x); }); });
    }
}
// sequences of plain definitions, in one or several sections: each sees exactly what was defined before it
static void sequences(int part, int of) {
    std::vector<Stmt> S;
    auto add = [&](std::string n, std::string e, std::string tag) {
        S.push_back({"<" + tag + " name=\"" + n + "\" value=\"" + e + "\"/>", [=](World &w) { w.c[n] = ev(w, e); }});
    };
    add("x", "1", "constant"); add("x", "y+1", "variable"); add("y", "2*x", "constant"); add("y", "t[1,2]", "variable"); add("z", "x+y", "constant"); add("a", "a+1", "variable");
    S.push_back({"<quantity name=\"y\" value=\"x\" unit=\"cm\"/>", [](World &w) { w.c["y"] = ev(w, "x") * 10; }});
    S.push_back({"<matrix name=\"t\" coldim=\"1\" values=\"x 2*a\"/>", [](World &w) { double x = ev(w, "x"), a = ev(w, "2*a"); w.m["t"] = {1, {x, a}}; }});
    S.push_back({"<position name=\"p\" x=\"x\" y=\"a\" unit=\"m\"/>", [](World &w) { w.p["p"] = {ev(w, "x"), ev(w, "a"), 0}; }});
    S.push_back({"</define><define>", [](World &) {}});
    int n = vc::thorough() ? 5 : 4, k = 0;
    std::vector<size_t> seq;
    std::function<void()> rec = [&]() {
        if (!seq.empty() && k++ % of == part) {
            std::string x; for (size_t i : seq) x += S[i].xml;
            std::vector<size_t> q = seq;
            program(x, [&](World &w) { for (size_t i : q) S[i].run(w); });
        }
        if ((int)seq.size() == n) return;
        for (size_t i = 0; i < S.size(); ++i) { seq.push_back(i); rec(); seq.pop_back(); }
    };
    rec();
}

int main(int argc, char **argv) {
    std::vector<vc::Case> c;
    auto wrap = [](std::function<void()> f) { return [f] { f(); cleanup(); }; };
    bool th = false; for (int i = 1; i < argc; ++i) if (std::string(argv[i]) == "thorough") th = true;
    c.push_back({"words", wrap(words), 300});
    c.push_back({"quantities", wrap(quantities), 300});
    for (int p = 0; p < 15; ++p) c.push_back({"expr-all-" + std::to_string(p), wrap([p, th] { strings(FULL, th ? 6 : 4, "", p, 15); strings(FULL, th ? 5 : 4, " ", p, 15); }), 1800});
    for (int p = 0; p < 7; ++p) c.push_back({"expr-arith-" + std::to_string(p), wrap([p, th] { strings(ARITH, th ? 8 : 6, "", p, 7); strings(ARITH, th ? 6 : 5, " ", p, 7); }), 1800});
    for (int p = 0; p < 7; ++p) c.push_back({"expr-calls-" + std::to_string(p), wrap([p, th] { strings(CALLS, th ? 7 : 6, "", p, 7); }), 1800});
    for (int p = 0; p < 7; ++p) c.push_back({"expr-literal-" + std::to_string(p), wrap([p, th] { strings(LITERAL, th ? 6 : 5, "", p, 7); }), 1800});
    for (int p = 0; p < 8; ++p) c.push_back({"expr-index-" + std::to_string(p), wrap([p, th] { strings(INDEX, th ? 7 : 5, "", p, 8); }), 1800});
    for (int p = 0; p < 4; ++p) c.push_back({"loops-" + std::to_string(p), wrap([p] { loops1(p, 4); }), 900});
    for (int p = 0; p < 4; ++p) c.push_back({"nested-loops-" + std::to_string(p), wrap([p] { loops2(p, 4); }), 900});
    for (int p = 0; p < 4; ++p) c.push_back({"sequences-" + std::to_string(p), wrap([p] { sequences(p, 4); }), 900});
    return vc::run(argc, argv, c);
}
