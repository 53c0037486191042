// P29: a detector imported from GDML is the detector the files describe.
// Every case writes GDML files into a scratch directory, imports them with DetectorModel::LoadGDML and
// probes the model; the reference answers are computed from the description by independent code.
#include "vc.h"
#include "shapes.h"
#include "SIREN/detector/DetectorModel.h"
#include "SIREN/detector/GDMLParser.h"
#include "SIREN/detector/MaterialModel.h"
#include "SIREN/detector/Coordinates.h"
#include <algorithm>
#include <array>
#include <fstream>
#include <memory>
#include <numeric>
using namespace siren::detector;
using namespace shapes;
using siren::math::Vector3D;
using S = std::string;
using V3 = std::array<double, 3>;

// ---- scratch files ---------------------------------------------------------------------------------
static std::set<S> files_;
static S dir() {
    static S d;
    if (d.empty()) {
        char const *t = getenv("VERIF_SCRATCH");
        S tpl = S(t ? t : "/tmp") + "/gdmlXXXXXX";
        std::vector<char> b(tpl.begin(), tpl.end()); b.push_back(0);
        if (!mkdtemp(b.data())) { perror("mkdtemp"); exit(2); }
        d = b.data();
    }
    return d;
}
static void put(S const &name, S const &text) {
    FILE *f = fopen((dir() + "/" + name).c_str(), "w");
    if (!f) { perror("scratch"); exit(2); }
    fwrite(text.data(), 1, text.size(), f); fclose(f); files_.insert(name);
}
static void cleanup() { for (auto const &f : files_) unlink((dir() + "/" + f).c_str()); files_.clear(); }
static S num(double v) { std::ostringstream o; o.precision(15); o << v; return o.str(); }

// ---- descriptions ----------------------------------------------------------------------------------
static S const MATS =
    "<material name=\"Air\" Z=\"7\"><D value=\"0.00129\" unit=\"g/cm3\"/><atom value=\"14.007\"/></material>"
    "<material name=\"Iron\" Z=\"26\"><D value=\"7.874\" unit=\"g/cm3\"/><atom value=\"55.845\"/></material>"
    "<material name=\"Lead\" Z=\"82\"><D value=\"11.35\" unit=\"g/cm3\"/><atom value=\"207.2\"/></material>"
    "<material name=\"Rock\" Z=\"14\"><D value=\"2.65\" unit=\"g/cm3\"/><atom value=\"28.085\"/></material>";
static std::map<S, double> const RHO = {{"Air", 0.00129}, {"Iron", 7.874}, {"Lead", 11.35}, {"Rock", 2.65}};
static S gdml(S const &def, S const &mats, S const &solids, S const &structure, S const &world, S const &head = "") {
    return "<?xml version=\"1.0\"?>\n" + head + "<gdml><define>" + def + "</define><materials>" + mats + "</materials><solids>" + solids + "</solids><structure>" + structure
        + "</structure><setup name=\"Default\" version=\"1.0\"><world ref=\"" + world + "\"/></setup></gdml>";
}
static S vol(S const &n, S const &solid, S const &mat, S const &kids = "") { return "<volume name=\"" + n + "\"><materialref ref=\"" + mat + "\"/><solidref ref=\"" + solid + "\"/>" + kids + "</volume>"; }
static S box(S const &n, double x, double y, double z) { return "<box name=\"" + n + "\" x=\"" + num(x) + "\" y=\"" + num(y) + "\" z=\"" + num(z) + "\"/>"; }

// ---- reference geometry (mm, degrees) --------------------------------------------------------------
struct Pl { double x = 0, y = 0, z = 0, rx = 0, ry = 0, rz = 0; bool hasp = true, hasr = true; };
static V3 turn(V3 v, double rx, double ry, double rz) {      // Rz*Ry*Rx
    double c, s; V3 a;
    c = std::cos(rx * M_PI / 180); s = std::sin(rx * M_PI / 180); a = {v[0], c * v[1] - s * v[2], s * v[1] + c * v[2]};
    c = std::cos(ry * M_PI / 180); s = std::sin(ry * M_PI / 180); v = {c * a[0] + s * a[2], a[1], -s * a[0] + c * a[2]};
    c = std::cos(rz * M_PI / 180); s = std::sin(rz * M_PI / 180); return {c * v[0] - s * v[1], s * v[0] + c * v[1], v[2]};
}
static V3 unturn(V3 v, double rx, double ry, double rz) {
    V3 a = turn(v, 0, 0, -rz); a = turn(a, 0, -ry, 0); return turn(a, -rx, 0, 0);
}
using Margin3 = std::function<double(V3 const &)>;            // > 0 inside, magnitude: safe distance (mm)
static Margin3 mbox(double x, double y, double z) { return [=](V3 const &p) { return std::min({x / 2 - std::fabs(p[0]), y / 2 - std::fabs(p[1]), z / 2 - std::fabs(p[2])}); }; }
static Margin3 morb(double r) { return [=](V3 const &p) { return r - std::sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]); }; }
struct OVol { S name, mat; bool assembly; Margin3 m; std::vector<std::pair<int, Pl>> kids; };
// physvol: the rotation is that of the frame (local = M (p - pos))
static S find(std::vector<OVol> const &w, int i, V3 p, double &safe) {
    if (!w[i].assembly) { double m = w[i].m(p); safe = std::min(safe, std::fabs(m)); if (m < 0) return ""; }
    S in = w[i].assembly ? "" : w[i].mat;
    for (auto const &k : w[i].kids) {
        V3 q = {p[0] - k.second.x, p[1] - k.second.y, p[2] - k.second.z};
        S r = find(w, k.first, turn(q, k.second.rx, k.second.ry, k.second.rz), safe);
        if (!r.empty()) in = r;
    }
    return in;
}
static S where(DetectorModel const &dm, V3 const &p) {
    DetectorPosition q(Vector3D(p[0] * 1e-3, p[1] * 1e-3, p[2] * 1e-3));
    auto s = dm.GetContainingSector(q);
    if (s.name == "UNIVERSE") return "";
    return dm.GetMaterials().GetMaterialName(s.material_id);
}
static std::vector<V3> grid(double half, int n) {
    std::vector<V3> o;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k)
        o.push_back({half * (2 * (i + 0.37) / n - 1), half * (2 * (j + 0.61) / n - 1), half * (2 * (k + 0.23) / n - 1)});
    return o;
}
struct Probe { S key; S what; };
static std::unique_ptr<DetectorModel> load(S const &what, bool strict = false, std::vector<S> *warn = nullptr) {
    vc::note(what); vc::step(); ++vc::R.states;
    std::unique_ptr<DetectorModel> dm(new DetectorModel());
    auto w = dm->LoadGDML(dir() + "/main.gdml", strict);
    if (warn) *warn = w;
    return dm;
}
// materials of the reference world (names as the user wrote them); names of the import may carry suffixes,
// so the density decides which one it is
static void probe(S const &key, S const &what, std::vector<OVol> const &w, int root, std::vector<V3> const &pts, std::map<S, double> const &rho = RHO) {
    std::unique_ptr<DetectorModel> dm;
    try { dm = load(what); }
    catch (std::exception const &e) { VC_EXPECT(false, key + "-refused", what, ": ", e.what()); return; }
    for (auto const &p : pts) {
        double safe = 1e9; S want = find(w, root, p, safe);
        if (safe < 1e-3) continue;
        DetectorPosition q(Vector3D(p[0] * 1e-3, p[1] * 1e-3, p[2] * 1e-3));
        S got = where(*dm, p);
        double d = dm->GetMassDensity(q), r = want.empty() ? 0 : rho.at(want);
        VC_EXPECT(want.empty() ? got.empty() : (!got.empty() && vc::close(d, r, 1e-9)), key, what, ": at (", p[0], ",", p[1], ",", p[2], ") mm there is ", got.empty() ? "nothing" : got, " (", d, " g/cm3) instead of ", want.empty() ? "nothing" : want, " (", r, ")");
    }
    vc::trace();
}

// ---- F1: hierarchies -------------------------------------------------------------------------------
static std::vector<Pl> const PLACES = {{0, 0, 0, 0, 0, 0, false, false}, {700, 0, 0, 0, 0, 0, true, false}, {-700, 250, -300, 0, 0, 90}, {300, -400, 200, 30, 40, 50}, {0, 0, 0, -20, 0, 0, false, true}, {-100, 600, 500, 0, 77, -135}};
static std::vector<Pl> const INNER = {{0, 0, 0, 0, 0, 0, false, false}, {300, 150, 100, 0, 0, 0, true, false}, {-200, -100, 50, 90, 0, 30}, {100, 50, -20, 10, 20, 30}};
static S place(Pl const &p, int style, S &defs, int id, S const &pp = "", S const &u = "mm") {
    (void)u;
    S n = "p" + std::to_string(id), o;
    if (p.hasp) {
        S at; 
        if (style == 1) at = " x=\"" + num(p.x / 1000) + "\" y=\"" + num(p.y / 1000) + "\" z=\"" + num(p.z / 1000) + "\" unit=\"m\"";
        else if (style == 2) at = " x=\"(" + num(p.x) + ")/10\" y=\"" + num(p.y / 10) + "\" z=\"ten*" + num(p.z / 100) + "\" unit=\"cm\"";
        else at = " x=\"" + num(p.x) + "\" y=\"" + num(p.y) + "\" z=\"" + num(p.z) + "\"";
        if (style == 3 || style == 2) { defs += "<position name=\"" + n + "\"" + at + "/>"; o += "<" + pp + "positionref ref=\"" + n + "\"/>"; }
        else o += "<" + pp + "position name=\"" + n + "\"" + at + "/>";
    }
    if (p.hasr) {
        S at;
        if (style == 1) at = " x=\"" + num(p.rx) + "*deg\" y=\"" + num(p.ry) + "*pi/180\" z=\"" + num(p.rz) + "*degree\"";
        else at = " x=\"" + num(p.rx) + "\" y=\"" + num(p.ry) + "\" z=\"" + num(p.rz) + "\" unit=\"deg\"";
        if (style == 3) { defs += "<rotation name=\"r" + n + "\"" + at + "/>"; o += "<" + pp + "rotationref ref=\"r" + n + "\"/>"; }
        else o += "<" + pp + "rotation name=\"r" + n + "\"" + at + "/>";
    }
    return o;
}
static void trees(int part, int of) {
    auto pts = grid(2200, vc::thorough() ? 17 : 11);
    int k = 0;
    for (int kind = 0; kind < 7; ++kind) for (size_t p = 0; p < PLACES.size(); ++p) for (size_t q = 0; q < INNER.size(); ++q) for (int style = 0; style < 4; ++style) for (int order = 0; order < 3; ++order) {
        if (kind < 2 && q) continue;
        if (k++ % of != part) continue;
        S suf = order == 2 ? "0x7f1234567" : "";
        S defs = "<constant name=\"ten\" value=\"10\"/>";
        Pl P = PLACES[p], Q = INNER[q], P2 = P; P2.x += 0; P2.y = -1200; P2.hasp = true;
        // 0 world, 1 A, 2 B, 3 assembly, 4 outer assembly
        std::vector<OVol> w = {{"W", "Air", false, mbox(4000, 4000, 4000), {}}, {"A", "Iron", false, mbox(1000, 600, 400), {}}, {"B", "Lead", false, mbox(200, 120, 80), {}}, {"S", "", true, {}, {}}, {"T", "", true, {}, {}}};
        switch (kind) {
            case 0: w[0].kids = {{1, P}}; break;
            case 1: w[0].kids = {{1, P2}, {1, P}}; break;
            case 2: w[0].kids = {{1, P}}; w[1].kids = {{2, Q}}; break;
            case 3: w[0].kids = {{3, P}}; w[3].kids = {{2, Q}}; break;
            case 4: w[0].kids = {{1, P}, {1, P2}}; w[1].kids = {{2, Q}}; break;
            case 5: w[0].kids = {{4, P}, {2, P2}}; w[4].kids = {{3, Q}}; w[3].kids = {{2, INNER[(q + 1) % 4]}}; break;
            case 6: w[0].kids = {{1, P}}; w[1].kids = {{3, INNER[3]}}; w[3].kids = {{2, Q}}; break;
        }
        int id = 0;
        std::vector<S> parts;
        for (int i = 0; i < 5; ++i) {
            S kids;
            for (auto const &c : w[i].kids) kids += "<physvol name=\"pv" + std::to_string(id) + "\"><volumeref ref=\"" + w[c.first].name + suf + "\"/>" + place(c.second, style, defs, id) + "</physvol>", ++id;
            if (w[i].assembly) parts.push_back("<assembly name=\"" + w[i].name + suf + "\">" + kids + "</assembly>");
            else parts.push_back(vol(w[i].name + suf, "s" + w[i].name + suf, w[i].mat, kids));
        }
        S st; if (order == 1) for (auto const &x : parts) st += x; else for (size_t i = parts.size(); i--;) st += parts[i];
        put("main.gdml", gdml(defs, MATS, box("sW" + suf, 4000, 4000, 4000) + box("sA" + suf, 1000, 600, 400) + box("sB" + suf, 200, 120, 80), st, "W" + suf));
        probe("tree", vc::cat("tree ", kind, " placement ", p, " inner ", q, " style ", style, " order ", order), w, 0, pts);
    }
}

// ---- F2: every solid -------------------------------------------------------------------------------
struct Sol { S name; S xml; Margin3 m; double half; };       // xml with $L for the length unit attributes; lengths in @..@ (mm), angles in ~..~ (deg)
static std::vector<Sol> solid_catalogue() {
    std::vector<Sol> o;
    auto D = [](double d) { return d * M_PI / 180; };
    struct PC { S xml; double s, d; };
    std::vector<PC> phis = {{"", 0, 360}, {" startphi=\"~20~\" deltaphi=\"~250~\"", 20, 250}, {" deltaphi=\"~90~\"", 0, 90}};
    auto cut = [=](V3 const &p, PC const &c) { return c.d >= 360 ? 1e9 : phim(p[0], p[1], D(c.s), D(c.d)); };
    o.push_back({"box", "<box name=\"s\" x=\"@1000@\" y=\"@600@\" z=\"@400@\" %/>", mbox(1000, 600, 400), 700});
    o.push_back({"orb", "<orb name=\"s\" r=\"@600@\" %/>", morb(600), 700});
    for (auto const &c : phis) {
        for (int hollow = 0; hollow < 2; ++hollow) {
            S rm = hollow ? " rmin=\"@200@\"" : ""; double ri = hollow ? 200 : -1e9;
            o.push_back({"sphere", "<sphere name=\"s\" rmax=\"@600@\"" + rm + c.xml + " %/>", [=](V3 const &p) { double r = std::sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]); return std::min({600 - r, r - ri, cut(p, c)}); }, 700});
            o.push_back({"sphere-theta", "<sphere name=\"s\" rmax=\"@600@\"" + rm + c.xml + " starttheta=\"~30~\" deltatheta=\"~70~\" %/>", [=](V3 const &p) { double r = std::sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]); return std::min({600 - r, r - ri, cut(p, c), thetam(p[0], p[1], p[2], D(30), D(70))}); }, 700});
            for (char const *tag : {"tube", "tubs"})
                o.push_back({tag, S("<") + tag + " name=\"s\" rmax=\"@600@\" z=\"@800@\"" + rm + c.xml + " %/>", [=](V3 const &p) { double r = std::hypot(p[0], p[1]); return std::min({600 - r, r - ri, 400 - std::fabs(p[2]), cut(p, c)}); }, 700});
            o.push_back({"cutTube", "<cutTube name=\"s\" rmax=\"@500@\" z=\"@800@\"" + rm + c.xml + " lowX=\"0\" lowY=\"-0.6\" lowZ=\"-0.8\" highX=\"0.28\" highY=\"0\" highZ=\"0.96\" %/>",
                [=](V3 const &p) { double r = std::hypot(p[0], p[1]); return std::min({500 - r, r - ri, -(-0.6 * p[1] - 0.8 * (p[2] + 400)), -(0.28 * p[0] + 0.96 * (p[2] - 400)), cut(p, c)}); }, 900});
            o.push_back({"torus", "<torus name=\"s\" rtor=\"@500@\" rmax=\"@200@\"" + (hollow ? S(" rmin=\"@80@\"") : S(" rmin=\"0\"")) + (c.d >= 360 ? S(" startphi=\"0\" deltaphi=\"~360~\"") : c.xml) + " %/>",
                [=](V3 const &p) { double r = std::hypot(p[0], p[1]), t = std::hypot(r - 500, p[2]); return std::min({200 - t, hollow ? t - 80 : 1e9, cut(p, c)}); }, 750});
        }
        o.push_back({"cone", "<cone name=\"s\" rmin1=\"@100@\" rmax1=\"@600@\" rmin2=\"@50@\" rmax2=\"@300@\" z=\"@800@\"" + c.xml + " %/>", [=](V3 const &p) { double r = std::hypot(p[0], p[1]), t = (p[2] + 400) / 800; return std::min({600 - 300 * t - r, r - (100 - 50 * t), 400 - std::fabs(p[2]), cut(p, c)}); }, 700});
        o.push_back({"polycone", "<polycone name=\"s\"" + c.xml + " %><zplane z=\"@-400@\" rmin=\"@100@\" rmax=\"@300@\"/><zplane z=\"@0@\" rmin=\"@50@\" rmax=\"@600@\"/><zplane z=\"@500@\" rmin=\"@150@\" rmax=\"@200@\"/></polycone>",
            [=](V3 const &p) { return std::min(stackm(std::hypot(p[0], p[1]), p[2], {-400, 0, 500}, {100, 50, 150}, {300, 600, 200}), cut(p, c)); }, 700});
        o.push_back({"polycone-down", "<polycone name=\"s\"" + c.xml + " %><zplane z=\"@500@\" rmin=\"@150@\" rmax=\"@200@\"/><zplane z=\"@0@\" rmin=\"@50@\" rmax=\"@600@\"/><zplane z=\"@-400@\" rmin=\"@100@\" rmax=\"@300@\"/></polycone>",
            [=](V3 const &p) { return std::min(stackm(std::hypot(p[0], p[1]), p[2], {-400, 0, 500}, {100, 50, 150}, {300, 600, 200}), cut(p, c)); }, 700});
        o.push_back({"genericPolycone", "<genericPolycone name=\"s\"" + c.xml + " %><rzpoint r=\"@100@\" z=\"@-400@\"/><rzpoint r=\"@600@\" z=\"@-300@\"/><rzpoint r=\"@400@\" z=\"@500@\"/><rzpoint r=\"@200@\" z=\"@100@\"/></genericPolycone>",
            [=](V3 const &p) { return std::min(polym(std::hypot(p[0], p[1]), p[2], {{{100, -400}}, {{600, -300}}, {{400, 500}}, {{200, 100}}}), cut(p, c)); }, 700});
        for (S ns : {S("6"), S("six"), S("12/2"), S("2*3")}) {
            double d = c.d, s = c.d >= 360 ? 0 : c.s;
            o.push_back({"polyhedra-" + ns, "<polyhedra name=\"s\" numsides=\"" + ns + "\"" + (c.d >= 360 ? S(" startphi=\"0\" deltaphi=\"~360~\"") : c.xml) + " %><zplane z=\"@-400@\" rmin=\"@100@\" rmax=\"@300@\"/><zplane z=\"@400@\" rmin=\"@150@\" rmax=\"@500@\"/></polyhedra>",
                [=](V3 const &p) {
                    double side = D(d) / 6, phi = norm2pi(std::atan2(p[1], p[0]) - D(s)), r = std::hypot(p[0], p[1]);
                    if (phi > D(d)) return std::min(-1.0, phim(p[0], p[1], D(s), D(d)));
                    double f = std::fmod(phi, side) - side / 2, q = r * std::cos(f);          // distance along the normal of the side
                    double t = (p[2] + 400) / 800;
                    double m = std::min({300 + 200 * t - q, q - (100 + 50 * t), 400 - std::fabs(p[2])});
                    return std::min(m, d >= 360 ? 1e9 : phim(p[0], p[1], D(s), D(d)));
                }, 700});
        }
    }
    o.push_back({"trd", "<trd name=\"s\" x1=\"@1000@\" x2=\"@400@\" y1=\"@300@\" y2=\"@900@\" z=\"@800@\" %/>", [](V3 const &p) { double t = (p[2] + 400) / 800; return std::min({500 - 300 * t - std::fabs(p[0]), 150 + 300 * t - std::fabs(p[1]), 400 - std::fabs(p[2])}); }, 700});
    o.push_back({"xtru", "<xtru name=\"s\" %><twoDimVertex x=\"@-300@\" y=\"@-200@\"/><twoDimVertex x=\"@300@\" y=\"@-200@\"/><twoDimVertex x=\"@300@\" y=\"@100@\"/><twoDimVertex x=\"@0@\" y=\"@350@\"/><twoDimVertex x=\"@-300@\" y=\"@400@\"/>"
        "<section zOrder=\"0\" zPosition=\"@-400@\" xOffset=\"@0@\" yOffset=\"@0@\" scalingFactor=\"1\"/><section zOrder=\"1\" zPosition=\"@400@\" xOffset=\"@100@\" yOffset=\"@-50@\" scalingFactor=\"1.5\"/></xtru>",
        [](V3 const &p) { double t = (p[2] + 400) / 800, s = 1 + 0.5 * t; return std::min(400 - std::fabs(p[2]), polym((p[0] - 100 * t) / s, (p[1] + 50 * t) / s, {{{-300, -200}}, {{300, -200}}, {{300, 100}}, {{0, 350}}, {{-300, 400}}})); }, 750});
    o.push_back({"xtru-clockwise", "<xtru name=\"s\" %><twoDimVertex x=\"@-300@\" y=\"@400@\"/><twoDimVertex x=\"@0@\" y=\"@350@\"/><twoDimVertex x=\"@300@\" y=\"@100@\"/><twoDimVertex x=\"@300@\" y=\"@-200@\"/><twoDimVertex x=\"@-300@\" y=\"@-200@\"/>"
        "<section zOrder=\"0\" zPosition=\"@-400@\" xOffset=\"@0@\" yOffset=\"@0@\" scalingFactor=\"1\"/><section zOrder=\"1\" zPosition=\"@400@\" xOffset=\"@100@\" yOffset=\"@-50@\" scalingFactor=\"1.5\"/></xtru>",
        [](V3 const &p) { double t = (p[2] + 400) / 800, s = 1 + 0.5 * t; return std::min(400 - std::fabs(p[2]), polym((p[0] - 100 * t) / s, (p[1] + 50 * t) / s, {{{-300, -200}}, {{300, -200}}, {{300, 100}}, {{0, 350}}, {{-300, 400}}})); }, 750});
    o.push_back({"eltube", "<eltube name=\"s\" dx=\"@300@\" dy=\"@500@\" dz=\"@400@\" %/>", [](V3 const &p) { return std::min(100 * (1 - std::hypot(p[0] / 300, p[1] / 500)), 400 - std::fabs(p[2])); }, 700});
    o.push_back({"ellipsoid", "<ellipsoid name=\"s\" ax=\"@300@\" by=\"@500@\" cz=\"@600@\" %/>", [](V3 const &p) { return 100 * (1 - std::sqrt(p[0] * p[0] / 9e4 + p[1] * p[1] / 25e4 + p[2] * p[2] / 36e4)); }, 700});
    o.push_back({"ellipsoid-cut", "<ellipsoid name=\"s\" ax=\"@300@\" by=\"@500@\" cz=\"@600@\" zcut1=\"@-200@\" zcut2=\"@350@\" %/>", [](V3 const &p) { return std::min({100 * (1 - std::sqrt(p[0] * p[0] / 9e4 + p[1] * p[1] / 25e4 + p[2] * p[2] / 36e4)), p[2] + 200, 350 - p[2]}); }, 700});
    o.push_back({"para", "<para name=\"s\" x=\"@600@\" y=\"@500@\" z=\"@800@\" alpha=\"~20~\" theta=\"~15~\" phi=\"~40~\" %/>", [=](V3 const &p) {
        double tz = std::tan(D(15)), y0 = p[1] - p[2] * tz * std::sin(D(40)), x0 = p[0] - p[2] * tz * std::cos(D(40)) - y0 * std::tan(D(20));
        return std::min({300 - std::fabs(x0), 250 - std::fabs(y0), 400 - std::fabs(p[2])}); }, 800});
    o.push_back({"trap", "<trap name=\"s\" z=\"@800@\" theta=\"~10~\" phi=\"~30~\" y1=\"@400@\" x1=\"@300@\" x2=\"@500@\" alpha1=\"~12~\" y2=\"@600@\" x3=\"@450@\" x4=\"@750@\" alpha2=\"~12~\" %/>", [=](V3 const &p) {
        double t = (p[2] + 400) / 800, tz = std::tan(D(10));
        double dy = 200 + 100 * t, xl = 150 + 75 * t, xh = 250 + 125 * t, x0 = p[2] * tz * std::cos(D(30)), y0 = p[2] * tz * std::sin(D(30));
        double y = p[1] - y0, u = (y + dy) / (2 * dy), hx = xl + (xh - xl) * u, x = p[0] - x0 - y * std::tan(D(12));
        return 0.5 * std::min({dy - std::fabs(y), hx - std::fabs(x), 400 - std::fabs(p[2])}); }, 800});
    o.push_back({"arb8", "<arb8 name=\"s\" v1x=\"@-300@\" v1y=\"@-200@\" v2x=\"@-300@\" v2y=\"@200@\" v3x=\"@300@\" v3y=\"@200@\" v4x=\"@300@\" v4y=\"@-200@\" v5x=\"@-600@\" v5y=\"@-400@\" v6x=\"@-600@\" v6y=\"@400@\" v7x=\"@600@\" v7y=\"@400@\" v8x=\"@600@\" v8y=\"@-400@\" dz=\"@500@\" %/>",
        [](V3 const &p) { double t = (p[2] + 500) / 1000; return 0.5 * std::min({300 + 300 * t - std::fabs(p[0]), 200 + 200 * t - std::fabs(p[1]), 500 - std::fabs(p[2])}); }, 700});
    o.push_back({"arb8-other-order", "<arb8 name=\"s\" v1x=\"@-300@\" v1y=\"@-200@\" v4x=\"@-300@\" v4y=\"@200@\" v3x=\"@300@\" v3y=\"@200@\" v2x=\"@300@\" v2y=\"@-200@\" v5x=\"@-600@\" v5y=\"@-400@\" v8x=\"@-600@\" v8y=\"@400@\" v7x=\"@600@\" v7y=\"@400@\" v6x=\"@600@\" v6y=\"@-400@\" dz=\"@500@\" %/>",
        [](V3 const &p) { double t = (p[2] + 500) / 1000; return 0.5 * std::min({300 + 300 * t - std::fabs(p[0]), 200 + 200 * t - std::fabs(p[1]), 500 - std::fabs(p[2])}); }, 700});
    o.push_back({"tessellated", "<tessellated name=\"s\" %><triangular vertex1=\"va\" vertex2=\"vc\" vertex3=\"vb\"/><triangular vertex1=\"va\" vertex2=\"vb\" vertex3=\"vd\"/><triangular vertex1=\"va\" vertex2=\"vd\" vertex3=\"vc\"/><triangular vertex1=\"vb\" vertex2=\"vc\" vertex3=\"vd\"/></tessellated>",
        [](V3 const &p) { return std::min({p[0] + 300, p[1] + 300, p[2] + 300, (0.0 - (p[0] + p[1] + p[2])) / std::sqrt(3.0)}); }, 700});
    o.push_back({"tessellated-quad", "<tessellated name=\"s\" %><quadrangular vertex1=\"q1\" vertex2=\"q2\" vertex3=\"q3\" vertex4=\"q4\"/><triangular vertex1=\"q1\" vertex2=\"q5\" vertex3=\"q2\"/><triangular vertex1=\"q2\" vertex2=\"q5\" vertex3=\"q3\"/><triangular vertex1=\"q3\" vertex2=\"q5\" vertex3=\"q4\"/><triangular vertex1=\"q4\" vertex2=\"q5\" vertex3=\"q1\"/></tessellated>",
        [](V3 const &p) { double t = (p[2] + 400) / 800; return 0.4 * std::min({400 * (1 - t) - std::fabs(p[0]), 300 * (1 - t) - std::fabs(p[1]), p[2] + 400}); }, 700});
    return o;
}
// writes the lengths of a template in a unit and the angles in a unit, plainly or through expressions
static S spell(S const &t, int mode) {
    S o; size_t i = 0;
    while (i < t.size()) {
        if (t[i] == '@' || t[i] == '~') {
            size_t j = t.find(t[i], i + 1); double v = std::strtod(t.substr(i + 1, j - i - 1).c_str(), nullptr);
            if (t[i] == '@') o += mode == 0 ? num(v) : mode == 1 ? num(v / 10) : mode == 2 ? num(v / 1000) : mode == 3 ? "(" + num(v * 2) + ")*half" : num(v) + "*mm";
            else o += mode == 0 ? num(v) : mode == 1 ? num(v * M_PI / 180) : mode == 2 ? num(v * M_PI / 180 * 1000) : mode == 3 ? num(v) + "*pi/180" : num(v) + "*deg";
            i = j + 1;
        } else if (t[i] == '%') {
            o += mode == 0 ? "aunit=\"deg\" lunit=\"mm\"" : mode == 1 ? "lunit=\"cm\" aunit=\"rad\"" : mode == 2 ? "lunit=\"m\" aunit=\"mrad\"" : mode == 3 ? "" : "aunit=\"radian\"";
            ++i;
        } else o += t[i++];
    }
    return o;
}
static void solids_(int part, int of) {
    S def = "<constant name=\"half\" value=\"0.5\"/><constant name=\"six\" value=\"6\"/>"
        "<position name=\"va\" x=\"-300\" y=\"-300\" z=\"-300\"/><position name=\"vb\" x=\"60\" y=\"-30\" z=\"-30\" unit=\"cm\"/><position name=\"vc\" x=\"-0.3\" y=\"0.6\" z=\"-0.3\" unit=\"m\"/><position name=\"vd\" x=\"-300\" y=\"-300\" z=\"600\"/>"
        "<position name=\"q1\" x=\"-400\" y=\"-300\" z=\"-400\"/><position name=\"q2\" x=\"-400\" y=\"300\" z=\"-400\"/><position name=\"q3\" x=\"400\" y=\"300\" z=\"-400\"/><position name=\"q4\" x=\"400\" y=\"-300\" z=\"-400\"/><position name=\"q5\" z=\"400\"/>";
    def.replace(def.find("x=\"60\" y=\"-30\" z=\"-30\""), 22, "x=\"60\" y=\"-30\" z=\"-30\"");
    int k = 0;
    for (auto const &s : solid_catalogue()) for (int mode = 0; mode < 5; ++mode) {
        if (k++ % of != part) continue;
        S x = spell(s.xml, mode);
        put("main.gdml", gdml(def, MATS, x, vol("W", "s", "Iron"), "W"));
        std::vector<OVol> w = {{"W", "Iron", false, s.m, {}}};
        probe("solid:" + s.name, x, w, 0, grid(s.half, vc::thorough() ? 25 : 15));
    }
}

// ---- F3: booleans, in every order of definition ------------------------------------------------------
static void booleans(int part, int of) {
    std::vector<S> ops = {"union", "subtraction", "intersection"};
    std::vector<Pl> firsts = {{0, 0, 0, 0, 0, 0, false, false}, {200, -100, 50, 0, 0, 0, true, false}, {-100, 0, 80, 0, 0, 40}}, seconds = {{0, 0, 0, 0, 0, 0, false, false}, {400, 200, 0, 0, 0, 0, true, false}, {0, 0, 0, 20, 0, 70, false, true}, {-300, 100, 150, 30, 40, 50}};
    auto pts = grid(1000, vc::thorough() ? 15 : 11);
    // reference: boolean operands are moved actively (local = M^-1 (p - pos))
    auto moved = [](Margin3 m, Pl p) { return [=](V3 const &q) { return m(unturn({q[0] - p.x, q[1] - p.y, q[2] - p.z}, p.rx, p.ry, p.rz)); }; };
    auto comb = [](int op, Margin3 a, Margin3 b) -> Margin3 { return [=](V3 const &p) { double x = a(p), y = b(p); double r = op == 0 ? std::max(x, y) : op == 1 ? std::min(x, -y) : std::min(x, y); double s = std::min(std::fabs(x), std::fabs(y)); return r > 0 ? s : -s; }; };
    std::vector<int> perm = {0, 1, 2, 3}; int k = 0, np = 0;
    do {
        ++np;
        for (int op = 0; op < 3; ++op) for (size_t f = 0; f < firsts.size(); ++f) for (size_t s = 0; s < seconds.size(); ++s) for (int op2 = 0; op2 < 3; ++op2) {
            if (!vc::thorough() && (np + op + op2 + (int)f + (int)s) % 3) continue;      // quick: a third of the orders for every combination
            if (k++ % of != part) continue;
            int style = (k / of) % 2 ? 3 : 0; S suf = (k / of / 2) % 2 ? "0x7f1234567" : "";
            S defs;
            Margin3 A = mbox(800, 500, 400), B = mbox(300, 900, 200);
            Margin3 U = comb(op, moved(A, firsts[f]), moved(B, seconds[s])), X = comb(op2, A, moved(U, seconds[(s + 1) % 4]));
            S el[4] = {box("A" + suf, 800, 500, 400), box("B" + suf, 300, 900, 200),
                "<" + ops[op] + " name=\"U" + suf + "\"><first ref=\"A" + suf + "\"/><second ref=\"B" + suf + "\"/>" + place(firsts[f], style, defs, 1, "first") + place(seconds[s], style, defs, 2) + "</" + ops[op] + ">",
                "<" + ops[op2] + " name=\"X" + suf + "\"><first ref=\"A" + suf + "\"/><second ref=\"U" + suf + "\"/>" + place(seconds[(s + 1) % 4], style, defs, 3) + "</" + ops[op2] + ">"};
            S so; for (int i : perm) so += el[i];
            put("main.gdml", gdml(defs, MATS, so, vol("W", "X" + suf, "Iron"), "W"));
            std::vector<OVol> w = {{"W", "Iron", false, X, {}}};
            probe("boolean", vc::cat(ops[op2], "(A, ", ops[op], "(A,B)) first ", f, " second ", s, " order ", perm[0], perm[1], perm[2], perm[3], " style ", style, suf), w, 0, pts);
        }
    } while (std::next_permutation(perm.begin(), perm.end()));
}

// ---- F4: materials -----------------------------------------------------------------------------------
static int pdg(int Z, int A) { return 1000000000 + Z * 10000 + A * 10; }
struct Comp { S name, xml; double A; std::map<int, double> mass; bool element; };        // mass fractions by nucleus
static std::vector<Comp> components() {
    std::vector<Comp> c;
    c.push_back({"H", "<element name=\"H\" Z=\"1\"><atom value=\"1.008\"/></element>", 1.008, {{pdg(1, 1), 1}}, true});
    c.push_back({"O", "<element name=\"O\" Z=\"8\"><atom value=\"15.999\" unit=\"g/mole\"/></element>", 15.999, {{pdg(8, 16), 1}}, true});
    c.push_back({"C", "<element name=\"C\" Z=\"6\"><atom value=\"twelve\"/></element>", 12, {{pdg(6, 12), 1}}, true});
    // an element made of isotopes: abundances by number
    double m5 = 0.2 * 35, m7 = 0.8 * 37, t = m5 + m7;
    c.push_back({"Cl", "<isotope name=\"Cl35\" Z=\"17\" N=\"35\"><atom value=\"35\"/></isotope><isotope name=\"Cl37\" Z=\"17\" N=\"37\"/><element name=\"Cl\"><fraction ref=\"Cl35\" n=\"0.2\"/><fraction ref=\"Cl37\" n=\"0.8\"/></element>", t, {{pdg(17, 35), m5 / t}, {pdg(17, 37), m7 / t}}, true});
    double h = 2 * 1.008, o = 15.999;
    c.push_back({"Water", "<material name=\"Water\"><D value=\"1\" unit=\"g/cm3\"/><composite n=\"2\" ref=\"H\"/><composite n=\"1\" ref=\"O\"/></material>", 0, {{pdg(1, 1), h / (h + o)}, {pdg(8, 16), o / (h + o)}}, false});
    c.push_back({"Mix", "<material name=\"Mix\"><D value=\"1\" unit=\"g/cm3\"/><fraction n=\"0.25\" ref=\"C\"/><fraction n=\"0.75\" ref=\"Water\"/></material>", 0, {{pdg(6, 12), 0.25}, {pdg(1, 1), 0.75 * h / (h + o)}, {pdg(8, 16), 0.75 * o / (h + o)}}, false});
    return c;
}
static void materials(int part, int of) {
    auto C = components();
    S all; for (auto const &c : C) all += c.xml;
    struct DU { S xml; double rho; };
    std::vector<DU> dens = {{"<D value=\"2.5\" unit=\"g/cm3\"/>", 2.5}, {"<D value=\"2.5\"/>", 2.5}, {"<D value=\"2500\" unit=\"kg/m3\"/>", 2.5}, {"<D value=\"2500\" unit=\"mg/cm3\"/>", 2.5}, {"<D value=\"rho\"/>", 2.5}, {"<D value=\"5*half\" unit=\"g/cm3\"/>", 2.5}};
    S def = "<constant name=\"twelve\" value=\"12\"/><constant name=\"half\" value=\"0.5\"/><quantity name=\"rho\" type=\"density\" value=\"2500\" unit=\"kg/m3\"/>";
    int k = 0;
    int nmax = vc::thorough() ? 4 : 3;
    std::vector<size_t> seq;
    std::function<void()> rec = [&]() {
        if (!seq.empty()) for (int how = 0; how < 2; ++how) {
            bool ok = true; for (size_t i : seq) if (how == 1 && !C[i].element) ok = false;
            if (!ok) continue;
            if (k++ % of != part) continue;
            // weights 1..n, shares w/sum (fractions) or w atoms (composite)
            double tot = 0; for (size_t i = 0; i < seq.size(); ++i) tot += (how ? (i + 1) * C[seq[i]].A : i + 1);
            std::map<int, double> want; S body;
            for (size_t i = 0; i < seq.size(); ++i) {
                double share = (how ? (i + 1) * C[seq[i]].A : i + 1) / tot;
                for (auto const &m : C[seq[i]].mass) want[m.first] += share * m.second;
                body += how ? "<composite n=\"" + std::to_string(i + 1) + "\" ref=\"" + C[seq[i]].name + "\"/>" : "<fraction n=\"" + num((i + 1) / tot) + "\" ref=\"" + C[seq[i]].name + "\"/>";
            }
            DU const &d = dens[k % dens.size()];
            bool two = (k / dens.size()) % 2;                    // the material in a section of its own
            S mats = all + (two ? "</materials><materials>" : "") + "<material name=\"X\">" + d.xml + body + "</material>";
            put("main.gdml", gdml(def, mats, box("b", 1000, 1000, 1000), vol("W", "b", "X"), "W"));
            S what = "X = " + d.xml + body;
            try {
                auto dm = load(what);
                VC_EXPECT(vc::close(dm->GetMassDensity(DetectorPosition(Vector3D(0.1, 0.1, 0.1))), d.rho, 1e-9), "material-density", what, ": density ", dm->GetMassDensity(DetectorPosition(Vector3D(0.1, 0.1, 0.1))));
                int id = dm->GetMaterials().GetMaterialId("X");
                double sum = 0;
                for (auto t : dm->GetMaterials().GetMaterialTargets(id)) {
                    if ((int)t < 1000000000 || (int)t >= 2000000000) continue;
                    double f = dm->GetMaterials().GetTargetMassFraction(id, t); sum += f;
                    double w = want.count((int)t) ? want[(int)t] : 0;
                    VC_EXPECT(vc::close(f, w, 1e-9, 1e-12), "mass-fraction", what, ": nucleus ", (int)t, " has mass fraction ", f, " instead of ", w);
                }
                VC_EXPECT(vc::close(sum, 1, 1e-9), "mass-fraction-sum", what, ": mass fractions add up to ", sum);
            } catch (std::exception const &e) { VC_EXPECT(false, "material-refused", what, ": ", e.what()); }
        }
        if ((int)seq.size() == nmax) return;
        for (size_t i = 0; i < C.size(); ++i) { seq.push_back(i); rec(); seq.pop_back(); }
    };
    rec();
    if (part) return;
    // what cannot be resolved is refused
    struct Bad { S what, mats; };
    for (auto const &b : std::vector<Bad>{{"unknown component", "<material name=\"X\"><D value=\"1\"/><fraction n=\"1\" ref=\"Nope\"/></material>"},
            {"atoms of something not defined yet", "<material name=\"X\"><D value=\"1\"/><composite n=\"2\" ref=\"L1\"/><composite n=\"1\" ref=\"L2\"/></material><element name=\"L1\" Z=\"1\"><atom value=\"1\"/></element><element name=\"L2\" Z=\"8\"><atom value=\"16\"/></element>"},
            {"atoms of a mix of known and unknown", "<element name=\"L2\" Z=\"8\"><atom value=\"16\"/></element><material name=\"X\"><D value=\"1\"/><composite n=\"2\" ref=\"L1\"/><composite n=\"1\" ref=\"L2\"/></material><element name=\"L1\" Z=\"1\"><atom value=\"1\"/></element>"},
            {"itself", "<material name=\"X\"><D value=\"1\"/><fraction n=\"1\" ref=\"X\"/></material>"},
            {"negative density", "<material name=\"X\" Z=\"1\"><D value=\"-1\"/><atom value=\"1\"/></material>"},
            {"density with a unit inside", "<material name=\"X\" Z=\"1\"><D value=\"2*g\"/><atom value=\"1\"/></material>"},
            {"no composition", "<material name=\"X\"><D value=\"1\"/></material>"}}) {
        put("main.gdml", gdml("", b.mats, box("b", 1000, 1000, 1000), vol("W", "b", "X"), "W"));
        bool threw = false; S got;
        try { auto dm = load("material of " + b.what); int id = dm->GetMaterials().GetMaterialId("X"); for (auto t : dm->GetMaterials().GetMaterialTargets(id)) if ((int)t >= 1000000000) got += vc::cat(" ", (int)t, ":", dm->GetMaterials().GetTargetMassFraction(id, t)); } catch (std::runtime_error const &) { threw = true; }
        VC_EXPECT(threw, "material-accepted", "a material of ", b.what, " is accepted:", got);
    }
}

// ---- F5: exported names with addresses ---------------------------------------------------------------
static void names(int part, int of) {
    // three materials, three solids, three volumes; each group shares a base name with addresses (or not) and equal or different content
    int k = 0;
    for (int mn = 0; mn < 3; ++mn) for (int sn = 0; sn < 3; ++sn) for (int vn = 0; vn < 3; ++vn) for (int msame = 0; msame < 2; ++msame) for (int ssame = 0; ssame < 2; ++ssame) for (int el = 0; el < 3; ++el) for (int split = 0; split < 2; ++split) {
        if (k++ % of != part) continue;
        auto nm = [](int style, S base, int i) { return style == 0 ? base + std::to_string(i) : style == 1 ? base + "0x7f00000" + std::to_string(i) + "0" : base + "_" + std::to_string(i) + "0x55aa" + std::to_string(i) + "bcdef0"; };
        double rho[3] = {1.5, msame ? 1.5 : 2.5, 3.5}, sz[3] = {200, ssame ? 200.0 : 300.0, 400};
        S mats, solids, st, kids;
        // an element of the same base name as the materials
        if (el == 1) mats += "<element name=\"Mat0x7f0000999\" Z=\"14\"><atom value=\"28\"/></element>";
        if (el == 2) mats += "<element name=\"Mat\" Z=\"14\"><atom value=\"28\"/></element>";
        std::vector<OVol> w = {{"W", "Air", false, mbox(4000, 4000, 4000), {}}};
        std::map<S, double> R = RHO;
        for (int i = 0; i < 3; ++i) {
            S body = el ? "<fraction n=\"1\" ref=\"" + S(el == 1 ? "Mat0x7f0000999" : "Mat") + "\"/>" : "<atom value=\"28\"/>";
            mats += "<material name=\"" + nm(mn, "Mat", i) + "\"" + (el ? S("") : S(" Z=\"14\"")) + "><D value=\"" + num(rho[i]) + "\"/>" + body + "</material>";
            solids += box(nm(sn, "Box", i), sz[i], 2 * sz[i], 100);
            st += vol(nm(vn, "Vol", i), nm(sn, "Box", i), nm(mn, "Mat", i));
            if (split && i == 1) st += "</structure><structure>";
            kids += "<physvol><volumeref ref=\"" + nm(vn, "Vol", i) + "\"/><position x=\"" + num(-1000 + 1000 * i) + "\" y=\"0\" z=\"0\"/></physvol>";
            S m = "m" + std::to_string(i); R[m] = rho[i];
            w.push_back({m, m, false, mbox(sz[i], 2 * sz[i], 100), {}}); Pl p; p.x = -1000 + 1000 * i; w[0].kids.push_back({i + 1, p});
        }
        S world = mn == 0 ? "W" : "W0x7f00001234";
        put("main.gdml", gdml("", MATS + mats, solids + box("sW", 4000, 4000, 4000), st + vol(world, "sW", "Air", kids), world));
        probe("names", vc::cat("materials ", nm(mn, "Mat", 0), "..", msame ? " (two equal)" : "", " solids ", nm(sn, "Box", 0), "..", ssame ? " (two equal)" : "", " volumes ", nm(vn, "Vol", 0), ".. element ", el, split ? " two structure sections" : ""), w, 0, grid(1700, 11), R);
    }
}

// addresses distinguish objects of the same base name, whatever the order of definition and use
static void addresses(int part, int of) {
    auto ad = [](S base, int i) { return base + "0x7f0000a" + std::to_string(i) + "0"; };
    std::vector<S> ops = {"union", "subtraction", "intersection"};
    auto comb = [](int op, Margin3 a, Margin3 b) -> Margin3 { return [=](V3 const &p) { double x = a(p), y = b(p); double r = op == 0 ? std::max(x, y) : op == 1 ? std::min(x, -y) : std::min(x, y); double s = std::min(std::fabs(x), std::fabs(y)); return r > 0 ? s : -s; }; };
    auto shifted = [](Margin3 m, double x) -> Margin3 { return [=](V3 const &q) { return m({q[0] - x, q[1], q[2]}); }; };
    Margin3 A[2] = {mbox(800, 500, 400), mbox(300, 900, 200)};
    int k = 0;
    std::vector<int> perm = {0, 1, 2, 3};
    do {
        for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) for (int c = 0; c < 2; ++c) for (int op = 0; op < 3; ++op) for (int op2 = 0; op2 < 3; ++op2) for (int split = 0; split < 2; ++split) {
            if (k++ % of != part) continue;
            Margin3 U = comb(op, A[a], shifted(A[b], 150)), X = comb(op2, A[c], shifted(U, -100));
            S el[4] = {box(ad("A", 1), 800, 500, 400), box(ad("A", 2), 300, 900, 200),
                "<" + ops[op] + " name=\"" + ad("U", 3) + "\"><first ref=\"" + ad("A", 1 + a) + "\"/><second ref=\"" + ad("A", 1 + b) + "\"/><position x=\"150\" y=\"0\" z=\"0\"/></" + ops[op] + ">",
                "<" + ops[op2] + " name=\"" + ad("U", 4) + "\"><first ref=\"" + ad("A", 1 + c) + "\"/><second ref=\"" + ad("U", 3) + "\"/><position x=\"-100\" y=\"0\" z=\"0\"/></" + ops[op2] + ">"};
            S so; for (int i = 0; i < 4; ++i) so += (split && i == 2 ? "</solids><solids>" : "") + el[perm[i]];
            put("main.gdml", gdml("", MATS, so, vol("W", ad("U", 4), "Iron"), "W"));
            std::vector<OVol> w = {{"W", "Iron", false, X, {}}};
            probe("addresses", vc::cat(ops[op2], "(A", 1 + c, ", ", ops[op], "(A", 1 + a, ",A", 1 + b, ")) order ", perm[0], perm[1], perm[2], perm[3], split ? " two sections" : ""), w, 0, grid(900, 9));
        }
    } while (std::next_permutation(perm.begin(), perm.end()));
    // components of materials
    int Z[3] = {11, 12, 13}, N[3] = {22, 24, 26};
    std::vector<int> q = {0, 1, 2};
    do {
        for (int kind = 0; kind < 3; ++kind) for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) for (int how = 0; how < (kind == 2 ? 1 : 2); ++how) {
            if (k++ % of != part) continue;
            S mats;
            for (int i : q) {
                S z = std::to_string(Z[i]), n = std::to_string(N[i]);
                mats += kind == 0 ? "<element name=\"" + ad("E", i) + "\" Z=\"" + z + "\"><atom value=\"" + n + "\"/></element>"
                    : kind == 1 ? "<isotope name=\"" + ad("E", i) + "\" Z=\"" + z + "\" N=\"" + n + "\"><atom value=\"" + n + "\"/></isotope>"
                    : "<material name=\"" + ad("E", i) + "\" Z=\"" + z + "\"><D value=\"" + std::to_string(i + 1) + "\"/><atom value=\"" + n + "\"/></material>";
            }
            double fa = how ? 1.0 * N[a] / (N[a] + 2 * N[b]) : 0.25, fb = 1 - fa;
            mats += "<material name=\"X\"><D value=\"2\"/>" + (how ? "<composite n=\"1\" ref=\"" + ad("E", a) + "\"/><composite n=\"2\" ref=\"" + ad("E", b) + "\"/>" : "<fraction n=\"0.25\" ref=\"" + ad("E", a) + "\"/><fraction n=\"0.75\" ref=\"" + ad("E", b) + "\"/>") + "</material>";
            put("main.gdml", gdml("", mats, box("b", 1000, 1000, 1000), vol("W", "b", "X"), "W"));
            S what = vc::cat(kind == 0 ? "elements" : kind == 1 ? "isotopes" : "materials", " of one base name defined in the order ", q[0], q[1], q[2], ", ", how ? "atoms" : "fractions", " of ", a, " and ", b);
            std::map<int, double> want; want[pdg(Z[a], N[a])] += fa; want[pdg(Z[b], N[b])] += fb;
            try {
                auto dm = load(what);
                int id = dm->GetMaterials().GetMaterialId("X");
                std::map<int, double> got;
                for (auto t : dm->GetMaterials().GetMaterialTargets(id)) if ((int)t >= 1000000000 && (int)t < 2000000000) got[(int)t] = dm->GetMaterials().GetTargetMassFraction(id, t);
                bool same = got.size() == want.size(); for (auto const &x : want) same = same && got.count(x.first) && vc::close(got[x.first], x.second, 1e-9);
                S shown; for (auto const &x : got) shown += vc::cat(" ", x.first, ":", x.second);
                VC_EXPECT(same, "addresses-nuclei", what, ": ", shown);
            } catch (std::exception const &e) { VC_EXPECT(false, "addresses-refused", what, ": ", e.what()); }
        }
    } while (std::next_permutation(q.begin(), q.end()));
}

// ---- F6: modules in files of their own ---------------------------------------------------------------
static void modules(int part, int of) {
    // main and two modules; each kind of name is shared by all of them or not
    int k = 0;
    for (int bits = 0; bits < 64; ++bits) for (int asm_ = 0; asm_ < 4; ++asm_) for (int ref = 0; ref < 3; ++ref) for (int samefile = 0; samefile < 2; ++samefile) {
        if (k++ % of != part) continue;
        bool wshare = bits & 1, ishare = bits & 2, sshare = bits & 4, mshare = bits & 8, topshare = bits & 16, elshare = bits & 32;
        std::map<S, double> R = RHO;
        std::vector<OVol> w = {{"top", "Air", false, mbox(4000, 4000, 4000), {}}};
        S suf = ref == 2 ? "0x7f00000123" : "";
        auto part_file = [&](int i) {
            S n = std::to_string(i);
            S W = (wshare ? (topshare ? "World" : "Module") : "World" + n) + suf, I = ishare ? "Inner" : "Inner" + n, sw = sshare ? "box" : "box" + n, si = sshare ? "ibox" : "ibox" + n, m = mshare ? "Mat" : "Mat" + n, e = elshare ? "El" : "El" + n;
            double rho = 1 + i, isz = 100 + 100 * i;
            S mats = MATS + "<element name=\"" + e + "\" Z=\"" + num(10 + i) + "\"><atom value=\"" + num(20 + 2 * i) + "\"/></element><material name=\"" + m + "\"><D value=\"" + num(rho) + "\"/><fraction n=\"1\" ref=\"" + e + "\"/></material>";
            S kid = "<physvol><volumeref ref=\"" + I + "\"/><position x=\"" + num(100 * i) + "\" y=\"0\" z=\"0\"/></physvol>";
            return std::make_pair(W, gdml("", mats, box(sw, 900, 900 - 100 * i, 900) + box(si, isz, isz, isz), vol(I, si, m) + vol(W, sw, i == 1 ? "Iron" : "Lead", kid), W));
        };
        S kids;
        for (int i = 1; i <= 2; ++i) {
            int c = samefile ? 1 : i;
            auto f = part_file(c); put("module" + std::to_string(c) + ".gdml", f.second);
            bool as = asm_ == 1 || (asm_ == 2 && i == 2) || (asm_ == 3 && i == 1);
            Pl p; p.x = i == 1 ? -1000 : 1000; p.rz = i == 1 ? 0 : 90;
            kids += "<physvol><file name=\"module" + std::to_string(c) + ".gdml\"" + (ref ? " volname=\"" + f.first + "\"" : "") + (as ? " as_assembly=\"true\"" : "") + "/><position x=\"" + num(p.x) + "\" y=\"0\" z=\"0\"/><rotation z=\"" + num(p.rz) + "\" unit=\"deg\"/></physvol>";
            S m = "m" + std::to_string(c); R[m] = 1 + c;
            Pl q; q.x = 100 * c;
            int base = (int)w.size();
            w.push_back({"mod", c == 1 ? "Iron" : "Lead", as, mbox(900, 900 - 100 * c, 900), {{base + 1, q}}});
            w.push_back({"in", m, false, mbox(100 + 100 * c, 100 + 100 * c, 100 + 100 * c), {}});
            w[0].kids.push_back({base, p});
        }
        // the main file has an inner volume, a box and a material of its own, too
        R["own"] = 9; Pl o; o.y = 1500; w.push_back({"own", "own", false, mbox(150, 250, 350), {}}); w[0].kids.push_back({(int)w.size() - 1, o});
        S I = ishare ? "Inner" : "Inner0", si = sshare ? "ibox" : "ibox0", sw = sshare ? "box" : "box0", m = mshare ? "Mat" : "Mat0", e = elshare ? "El" : "El0", top = topshare ? "World" : "Top";
        S own = vol(I, si, m), main = vol(top, sw, "Air", kids + "<physvol><volumeref ref=\"" + I + "\"/><position y=\"1500\"/></physvol>");
        put("main.gdml", gdml("", MATS + "<element name=\"" + e + "\" Z=\"30\"><atom value=\"65\"/></element><material name=\"" + m + "\"><D value=\"9\"/><fraction n=\"1\" ref=\"" + e + "\"/></material>", box(sw, 4000, 4000, 4000) + box(si, 150, 250, 350), own + main, top));
        S what = vc::cat("modules sharing", wshare ? " world-volume" : "", topshare ? " top" : "", ishare ? " inner-volume" : "", sshare ? " solid" : "", mshare ? " material" : "", elshare ? " element" : "", " names; as_assembly ", asm_, " volname ", ref, samefile ? " same file twice" : "");
        probe("modules", what, w, 0, grid(2100, 13), R);
        // the nuclei of each material are its own
        try {
            auto dm = load(what);
            auto nucleus = [&](V3 p) { auto s = dm->GetContainingSector(DetectorPosition(Vector3D(p[0] * 1e-3, p[1] * 1e-3, p[2] * 1e-3))); for (auto t : dm->GetMaterials().GetMaterialTargets(s.material_id)) if ((int)t >= 1000000000) return (int)t; return 0; };
            VC_EXPECT(nucleus({0, 1500, 0}) == pdg(30, 65), "modules-nuclei", what, ": the main file's own material has nucleus ", nucleus({0, 1500, 0}));
            VC_EXPECT(nucleus({-900, 0, 0}) == pdg(11, 22), "modules-nuclei", what, ": the first module's material has nucleus ", nucleus({-900, 0, 0}));
            V3 second = samefile ? V3{1000, -100, 0} : V3{1000, -200, 0};
            VC_EXPECT(nucleus(second) == (samefile ? pdg(11, 22) : pdg(12, 24)), "modules-nuclei", what, ": the second module's material has nucleus ", nucleus(second));
        } catch (std::exception const &) {}
    }
    if (part) return;
    // files that include each other, or are missing, are refused
    S self = "<physvol><file name=\"main.gdml\"/></physvol>", other = "<physvol><file name=\"a.gdml\"/></physvol>", back = "<physvol><file name=\"main.gdml\"/></physvol>", gone = "<physvol><file name=\"gone.gdml\"/></physvol>";
    auto refused = [&](S what) { bool threw = false; try { load(what); } catch (std::runtime_error const &) { threw = true; } VC_EXPECT(threw, "modules-accepted", what, " is accepted"); };
    put("main.gdml", gdml("", MATS, box("b", 1000, 1000, 1000), vol("W", "b", "Air", gone), "W")); refused("a missing module");
    put("main.gdml", gdml("", MATS, box("b", 1000, 1000, 1000), vol("W", "b", "Air", self), "W")); refused("a file that places itself");
    put("main.gdml", gdml("", MATS, box("b", 1000, 1000, 1000), vol("W", "b", "Air", other), "W")); put("a.gdml", gdml("", MATS, box("b", 500, 500, 500), vol("V", "b", "Air", back), "V")); refused("two files that place each other");
}

// ---- F7: entities and includes -----------------------------------------------------------------------
static void includes(int part, int of) {
    // a piece of the structure (one physvol with a lead block) reaches the file in several ways
    std::vector<OVol> with = {{"W", "Air", false, mbox(2000, 2000, 2000), {{1, Pl()}}}, {"B", "Lead", false, mbox(600, 400, 300), {}}}, without = with; without[0].kids.clear();
    auto pts = grid(900, 9); int k = 0;
    S piece = "<physvol><volumeref ref=\"B\"/></physvol>", other = "<!-- a remark --><physvol><volumeref ref=\"B\"/></physvol>";
    S inc = "<xi:include href=\"piece.xml\"/>", inc2 = "<xi:include href=\"piece.xml\"></xi:include>", inc3 = "<xi:include xmlns:xi=\"http://www.w3.org/2001/XInclude\" parse=\"xml\" href='piece.xml' />";
    S doct = "<!DOCTYPE gdml [\n<!ENTITY piece SYSTEM \"piece.xml\">\n]>\n", doct2 = "<!DOCTYPE gdml SYSTEM \"gdml.dtd\" [ <!ENTITY unused SYSTEM 'nothing.xml'> <!ENTITY piece SYSTEM 'piece.xml' > ]>\n";
    S nested = "<!DOCTYPE x [<!ENTITY inner SYSTEM \"inner.xml\">]>&inner;";
    struct Cse { S what, head, body, pfile, ifile; int expect; };       // 1 the block is there, 0 it is not, -1 refused
    std::vector<Cse> cs;
    for (S pf : {piece, other, "<?xml version=\"1.0\"?>\n" + piece}) for (S b : {inc, inc2, inc3}) {
        cs.push_back({"include", "", b, pf, "", 1});
        cs.push_back({"include in a comment", "", "<!-- " + b + " -->", pf, "", 0});
        cs.push_back({"include after a comment", "", "<!-- x --><!-- " + b + " -->" + b, pf, "", 1});
    }
    for (S pf : {piece, other}) for (S h : {doct, doct2}) {
        cs.push_back({"entity", h, "&piece;", pf, "", 1});
        cs.push_back({"entity in a comment", h, "<!-- &piece; -->", pf, "", 0});
        cs.push_back({"entity not used", h, "", pf, "", 0});
    }
    cs.push_back({"entity in an entity", doct, "&piece;", nested, piece, 1});
    cs.push_back({"include in an include", "", inc, "<xi:include href=\"inner.xml\"/>", piece, 1});
    cs.push_back({"entity in an include", "", inc, nested, piece, 1});
    cs.push_back({"include in an entity", doct, "&piece;", "<xi:include href=\"inner.xml\"/>", piece, 1});
    cs.push_back({"include twice", "", "<!-- a -->" + inc, piece, "", 1});
    cs.push_back({"missing include", "", inc, "-", "", -1});
    cs.push_back({"missing include in an include", "", inc, "<xi:include href=\"inner.xml\"/>", "-", -1});
    cs.push_back({"include without file", "", "<xi:include parse=\"xml\"/>", piece, "", -1});
    cs.push_back({"missing entity, used", doct, "&piece;", "-", "", -1});
    cs.push_back({"missing entity, used in an entity", doct, "&piece;", nested, "-", -1});
    cs.push_back({"missing entity, not used", doct, piece, "-", "", 1});
    cs.push_back({"entity not declared", doct, "&peice;", piece, "", -1});
    cs.push_back({"include of itself", "", inc, inc, "", -1});
    cs.push_back({"includes of each other", "", inc, "<xi:include href=\"inner.xml\"/>", "<xi:include href=\"piece.xml\"/>", -1});
    cs.push_back({"entities of each other", doct, "&piece;", nested, "<!DOCTYPE x [<!ENTITY back SYSTEM \"piece.xml\">]>&back;", -1});
    for (auto const &c : cs) {
        if (k++ % of != part) continue;
        cleanup();
        if (c.pfile != "-") put("piece.xml", c.pfile);
        if (c.ifile != "-" && !c.ifile.empty()) put("inner.xml", c.ifile);
        put("main.gdml", gdml("", MATS, box("b", 2000, 2000, 2000) + box("c", 600, 400, 300), vol("B", "c", "Lead") + vol("W", "b", "Air", c.body), "W", c.head));
        S what = c.what + ": " + c.head + c.body + " piece.xml: " + c.pfile + " inner.xml: " + c.ifile;
        if (c.expect >= 0) { probe("include", what, c.expect ? with : without, 0, pts); continue; }
        bool threw = false; try { load(what); } catch (std::runtime_error const &) { threw = true; }
        VC_EXPECT(threw, "include-accepted", what, " is accepted");
    }
}

// ---- F8: loops and replicas --------------------------------------------------------------------------
static void loops(int part, int of) {
    struct H { double from, to, step; S f, t, s; };
    std::vector<H> hs = {{0, 2, 1, "0", "2", "1"}, {1, 3, 1, "1", "n", ""}, {2, 0, -1, "2", "0", "-1"}, {-1, 1, 1, "-1", "1", "1"}, {0, 0.75, 0.25, "0", "0.75", "0.25"}, {0.1234567, 2.1234567, 1, "0.1234567", "2.1234567", "1"}, {0, 0.3, 0.1, "0", "0.3", "0.1"}, {1, 0, 1, "1", "0", "1"}, {-1.5, 0.5, 1, "-1.5", "0.5", "1"}};
    // position formulas of the loop variables (mm)
    struct Fm { S x; std::function<double(double, double)> f; };
    std::vector<Fm> xs = {{"400*i-300", [](double i, double) { return 400 * i - 300; }}, {"-i*400", [](double i, double) { return -i * 400; }}, {"i^2*200", [](double i, double) { return i * i * 200; }}, {"500-300*i", [](double i, double) { return 500 - 300 * i; }}, {"800*sin(i)-i/2", [](double i, double) { return 800 * std::sin(i) - i / 2; }}, {"2^-i*300", [](double i, double) { return std::pow(2, -i) * 300; }}};
    std::vector<Fm> ys = {{"0", [](double, double) { return 0; }}, {"j*500-700", [](double, double j) { return j * 500 - 700; }}, {"(i-j)*300", [](double i, double j) { return (i - j) * 300; }}, {"j^2*60*i", [](double i, double j) { return j * j * 60 * i; }}};
    auto pts = grid(1500, 15); int k = 0;
    auto values = [](H const &h) { std::vector<double> v; long n = (long)std::floor((h.to - h.from) / h.step + 1e-6); for (long i = 0; i <= n; ++i) v.push_back(h.from + i * h.step); return v; };
    auto loop = [](H const &h, S v, S body) { return "<loop for=\"" + v + "\" from=\"" + h.f + "\" to=\"" + h.t + "\"" + (h.s.empty() ? S() : " step=\"" + h.s + "\"") + ">" + body + "</loop>"; };
    // stale: the definitions have used the loop variables before
    for (size_t a = 0; a < hs.size(); ++a) for (size_t b = 0; b <= hs.size(); ++b) for (size_t x = 0; x < xs.size(); ++x) for (size_t y = 0; y < ys.size(); ++y) for (int mode = 0; mode < 4; ++mode) for (int stale = 0; stale < 2; ++stale) {
        bool nested = b < hs.size();
        if (!nested && y) continue;
        if (nested && ((a + b + x + y + mode) % (vc::thorough() ? 2 : 5))) continue;
        if (k++ % of != part) continue;
        S def = S("<constant name=\"n\" value=\"3\"/>") + (stale ? "<loop for=\"j\" from=\"5\" to=\"6\"><variable name=\"z\" value=\"j\"/></loop><loop for=\"i\" from=\"8\" to=\"9\"><variable name=\"z\" value=\"i\"/></loop><variable name=\"i\" value=\"4\"/>" : "");
        // mode 0: placements of one volume; 1: a solid and a volume of their own for each, names put together; 2: refs to positions of the definitions; 3: the size depends on the variable
        std::vector<OVol> w = {{"W", "Air", false, mbox(4000, 4000, 4000), {}}};
        std::vector<double> vi = values(hs[a]), vj = nested ? values(hs[b]) : std::vector<double>{0};
        std::set<S> used; bool clash = false;
        for (double i : vi) for (double j : vj) {
            double s = mode == 3 || mode == 1 ? 60 + 20 * std::fabs(i) + 5 * std::fabs(j) : 80;
            Pl p; p.x = xs[x].f(i, j); p.y = ys[y].f(i, j);
            w.push_back({"v", "Iron", false, mbox(s, s, s), {}}); w[0].kids.push_back({(int)w.size() - 1, p});
        }
        S nme = nested ? "[4*i+40]_[4*j+40]" : "[4*i+40]", Y = nested ? ys[y].x : "0";
        S size = nested ? "60+20*abs(i)+5*abs(j)" : "60+20*abs(i)";
        // several values may share a name when 4*i is no integer
        for (double i : vi) for (double j : vj) { S n = std::to_string((long)(4 * i + 40 + 1e-9)) + "_" + std::to_string((long)(4 * j + 40 + 1e-9)); if (!used.insert(n).second) clash = true; }
        if (clash && mode) continue;
        auto L = [&](S body) { return loop(hs[a], "i", nested ? loop(hs[b], "j", body) : body); };
        S sol = box("sW", 4000, 4000, 4000), st, kids;
        S pos = "<position name=\"pos" + nme + "\" x=\"" + xs[x].x + "\" y=\"" + Y + "\" z=\"0\"/>";
        if (mode == 0) { sol += box("sv", 80, 80, 80); st = vol("V", "sv", "Iron"); kids = L("<physvol><volumeref ref=\"V\"/>" + pos + "</physvol>"); }
        if (mode == 2) { sol += box("sv", 80, 80, 80); st = vol("V", "sv", "Iron"); def += L(pos); kids = L("<physvol><volumeref ref=\"V\"/><positionref ref=\"pos" + nme + "\"/></physvol>"); }
        if (mode == 1 || mode == 3) {
            sol += L("<box name=\"s" + nme + "\" x=\"" + size + "\" y=\"" + size + "\" z=\"" + size + "\"/>");
            st = L("<volume name=\"V" + nme + "\"><materialref ref=\"Iron\"/><solidref ref=\"s" + nme + "\"/></volume>");
            kids = L("<physvol><volumeref ref=\"V" + nme + "\"/>" + (mode == 3 ? "<positionref ref=\"pos" + nme + "\"/>" : pos) + "</physvol>");
            if (mode == 3) def += L(pos);
        }
        put("main.gdml", gdml(def, MATS, sol, st + vol("W", "sW", "Air", kids), "W"));
        // probe the centre and just inside and outside of a face of every block
        std::vector<V3> q;
        for (size_t c = 1; c < w.size(); ++c) { Pl const &p = w[0].kids[c - 1].second; double i = vi[(c - 1) / vj.size()], j = vj[(c - 1) % vj.size()], s = mode == 3 || mode == 1 ? 60 + 20 * std::fabs(i) + 5 * std::fabs(j) : 80;
            q.push_back({p.x, p.y, 1}); q.push_back({p.x + s / 2 - 0.05, p.y, 1}); q.push_back({p.x - s / 2 - 0.05, p.y, 1}); q.push_back({p.x, p.y + s / 2 + 0.05, -1}); q.push_back({p.x, p.y + s / 2 - 0.05, -1}); }
        for (int g = 0; g < 15; ++g) for (int h = 0; h < 15; ++h) q.push_back({-1400 + g * 197.3, -1400 + h * 201.7, 3});
        probe("loop", vc::cat("loop ", kids, " with ", st, " ", def), w, 0, q);
    }
}
static void replicas(int part, int of) {
    int k = 0;
    struct Dr { S x; V3 d; };
    for (S number : {S("4"), S("n"), S("n+1"), S("8/2"), S("1"), S("0")}) for (Dr const &d : std::vector<Dr>{{"x=\"1\"", {1, 0, 0}}, {"y=\"2\"", {0, 1, 0}}, {"z=\"-1\"", {0, 0, -1}}, {"x=\"3\" y=\"4\"", {0.6, 0.8, 0}}}) for (double width : {200.0, 350.0}) for (double off : {0.0, 120.0}) for (int unit = 0; unit < 2; ++unit) for (int more = 0; more < 2; ++more) {
        if (k++ % of != part) continue;
        int n = number == "4" || number == "8/2" || number == "n+1" ? 4 : number == "n" ? 3 : number == "1" ? 1 : 0;
        S U = unit ? "cm" : "mm"; double f = unit ? 0.1 : 1;
        S rep = "<replicavol number=\"" + number + "\"><volumeref ref=\"C\"/><replicate_along_axis><direction " + d.x + "/><width value=\"" + num(width * f) + "\" unit=\"" + U + "\"/>" + (off ? "<offset value=\"" + num(off * f) + "\" unit=\"" + U + "\"/>" : S()) + "</replicate_along_axis></replicavol>";
        S extra = more ? "<physvol><volumeref ref=\"D\"/><position z=\"1300\" y=\"1300\"/></physvol>" : "";
        std::vector<OVol> w = {{"W", "Air", false, mbox(3500, 3500, 3500), {}}, {"C", "Iron", false, mbox(100, 90, 80), {}}, {"D", "Lead", false, mbox(200, 200, 200), {}}};
        for (int i = 0; i < n; ++i) { double t = off + (i + 0.5 - n / 2.0) * width; Pl p; p.x = t * d.d[0]; p.y = t * d.d[1]; p.z = t * d.d[2]; w[0].kids.push_back({1, p}); }
        if (more) { Pl p; p.y = 1300; p.z = 1300; w[0].kids.push_back({2, p}); }
        put("main.gdml", gdml("<constant name=\"n\" value=\"3\"/>", MATS, box("sW", 3500, 3500, 3500) + box("sC", 100, 90, 80) + box("sD", 200, 200, 200), vol("C", "sC", "Iron") + vol("D", "sD", "Lead") + vol("W", "sW", "Air", extra + rep), "W"));
        std::vector<V3> q = grid(1600, 7);
        for (auto const &c : w[0].kids) { q.push_back({c.second.x, c.second.y, c.second.z}); q.push_back({c.second.x + 49, c.second.y, c.second.z}); q.push_back({c.second.x, c.second.y - 44, c.second.z}); q.push_back({c.second.x, c.second.y, c.second.z + 39}); q.push_back({c.second.x + 51, c.second.y, c.second.z}); }
        probe("replica", rep, w, 0, q);
    }
}

// ---- F9: what is not supported is reported -------------------------------------------------------------
static void reported(int part, int) {
    if (part) return;
    struct U { S what, def, mats, solids, in_world; bool fatal; };
    S ok = "<physvol><volumeref ref=\"C\"/></physvol>";
    std::vector<U> us = {
        {"a solid of an unknown kind", "", "", "<hype name=\"h\" rmin=\"1\" rmax=\"2\" z=\"3\"/>", ok, false},
        {"an extruded solid that is not convex", "", "", "<xtru name=\"h\" lunit=\"mm\"><twoDimVertex x=\"-300\" y=\"-200\"/><twoDimVertex x=\"300\" y=\"-200\"/><twoDimVertex x=\"300\" y=\"100\"/><twoDimVertex x=\"0\" y=\"0\"/><twoDimVertex x=\"-300\" y=\"400\"/><section zOrder=\"0\" zPosition=\"-4\" xOffset=\"0\" yOffset=\"0\" scalingFactor=\"1\"/><section zOrder=\"1\" zPosition=\"4\" xOffset=\"0\" yOffset=\"0\" scalingFactor=\"1\"/></xtru>", ok, false},
        {"a boolean of an unknown solid", "", "", "<union name=\"h\"><first ref=\"nope\"/><second ref=\"sC\"/></union>", ok, false},
        {"a scale definition", "<scale name=\"s\" x=\"-1\"/>", "", "", ok, false},
        {"a scaled placement", "", "", "", "<physvol><volumeref ref=\"C\"/><scale x=\"-1\" y=\"1\" z=\"1\"/></physvol>", false},
        {"a parameterised volume", "", "", "", ok + "<paramvol ncopies=\"2\"><volumeref ref=\"C\"/></paramvol>", false},
        {"a divided volume", "", "", "", ok + "<divisionvol axis=\"kXAxis\" number=\"4\" width=\"10\" offset=\"0\" unit=\"mm\"><volumeref ref=\"C\"/></divisionvol>", false},
        {"a replica around the axis", "", "", "", ok + "<replicavol number=\"3\"><volumeref ref=\"C\"/><replicate_along_axis><direction phi=\"1\"/><width value=\"10\"/></replicate_along_axis></replicavol>", false},
        {"a replica without direction", "", "", "", ok + "<replicavol number=\"3\"><volumeref ref=\"C\"/><replicate_along_axis><width value=\"10\"/></replicate_along_axis></replicavol>", false},
        {"a replica without axis", "", "", "", ok + "<replicavol number=\"3\"><volumeref ref=\"C\"/></replicavol>", false},
        {"a material without density", "", "<material name=\"V\" Z=\"1\"><atom value=\"1\"/></material>", "", ok, false},
        {"a density in an unknown unit", "", "<material name=\"V\" Z=\"1\"><D value=\"1\" unit=\"oz\"/><atom value=\"1\"/></material>", "", ok, false},
        {"a redefined unit", "<constant name=\"mm\" value=\"7\"/>", "", "", ok, false},
        {"a placement of an unknown volume", "", "", "", ok + "<physvol><volumeref ref=\"nope\"/></physvol>", true},
        {"a placement of nothing", "", "", "", ok + "<physvol/>", true},
        {"an unknown position", "", "", "", "<physvol><volumeref ref=\"C\"/><positionref ref=\"nope\"/></physvol>", true},
        {"an unknown rotation", "", "", "", "<physvol><volumeref ref=\"C\"/><rotationref ref=\"nope\"/></physvol>", true},
        {"a misspelt element", "", "", "", "<physvol><volumeref ref=\"C\"/><positoin x=\"3\"/></physvol>", true},
        {"a volume in itself", "", "", "", ok + "<physvol><volumeref ref=\"W\"/></physvol>", true},
        {"nothing unusual", "", "", "", ok, false}};
    for (auto const &u : us) for (bool strict : {false, true}) {
        put("main.gdml", gdml(u.def, MATS + u.mats, box("sW", 2000, 2000, 2000) + box("sC", 100, 100, 100) + u.solids, vol("C", "sC", "Iron") + vol("W", "sW", "Air", u.in_world), "W"));
        bool threw = false; std::vector<S> warn; S c;
        try { auto dm = load(u.what, strict, &warn); c = where(*dm, {1, 1, 1}); } catch (std::runtime_error const &) { threw = true; }
        bool usual = u.what == "nothing unusual";
        VC_EXPECT(threw == (u.fatal || (strict && !usual)), "reported", u.what, strict ? " in strict mode" : "", threw ? " is refused" : " is accepted");
        if (!threw) {
            VC_EXPECT(warn.empty() == usual, "reported", u.what, ": ", warn.size(), " warnings");
            VC_EXPECT(c == "Iron", "reported-geometry", u.what, ": the rest of the geometry is not built (", c, ")");
        }
    }
    // volumes that need what could not be read are refused
    for (S st : {vol("W", "nope", "Air"), vol("W", "sW", "nope"), vol("W", "h", "Air"), vol("W", "", "Air"), vol("W", "sW", "")}) {
        put("main.gdml", gdml("", MATS, box("sW", 2000, 2000, 2000) + "<hype name=\"h\" rmin=\"1\" rmax=\"2\" z=\"3\"/>", st, "W"));
        bool threw = false; try { load(st); } catch (std::runtime_error const &) { threw = true; }
        VC_EXPECT(threw, "reported", st, " is accepted");
    }
    // two different definitions of one name cannot be used; two equal ones can
    for (int same = 0; same < 2; ++same) {
        put("main.gdml", gdml("", MATS, box("sW", 2000, 2000, 2000) + box("sC", 100, 100, 100) + box("sC", same ? 100 : 200, 100, 100), vol("C", "sC", "Iron") + vol("W", "sW", "Air", ok), "W"));
        bool threw = false; try { load("two definitions of a solid"); } catch (std::runtime_error const &) { threw = true; }
        VC_EXPECT(threw == !same, "ambiguous", "two ", same ? "equal" : "different", " definitions of a solid: ", threw ? "refused" : "accepted");
        put("main.gdml", gdml("", MATS + "<material name=\"X\" Z=\"1\"><D value=\"1\"/><atom value=\"1\"/></material><material name=\"X\" Z=\"1\"><D value=\"" + S(same ? "1" : "2") + "\"/><atom value=\"1\"/></material>", box("sW", 2000, 2000, 2000) + box("sC", 100, 100, 100), vol("C", "sC", "X") + vol("W", "sW", "Air", ok), "W"));
        threw = false; try { load("two definitions of a material"); } catch (std::runtime_error const &) { threw = true; }
        VC_EXPECT(threw == !same, "ambiguous", "two ", same ? "equal" : "different", " definitions of a material: ", threw ? "refused" : "accepted");
        for (int split = 0; split < 2; ++split) {
            put("main.gdml", gdml("", MATS, box("sW", 2000, 2000, 2000) + box("sC", 100, 100, 100), vol("C", "sC", "Iron") + (split ? "</structure><structure>" : "") + vol("C", "sC", same ? "Iron" : "Lead") + vol("W", "sW", "Air", ok), "W"));
            threw = false; try { load("two definitions of a volume"); } catch (std::runtime_error const &) { threw = true; }
            VC_EXPECT(threw == !same, "ambiguous", "two ", same ? "equal" : "different", " definitions of a volume", split ? " in two sections" : "", ": ", threw ? "refused" : "accepted");
        }
    }
    // importing again forgets the first import
    put("main.gdml", gdml("", MATS, box("sW", 2000, 2000, 2000) + box("sC", 100, 100, 100), vol("C", "sC", "Iron") + vol("W", "sW", "Air", ok), "W"));
    DetectorModel dm; dm.LoadGDML(dir() + "/main.gdml"); size_t n1 = dm.GetSectors().size();
    put("main.gdml", gdml("", MATS, box("sW", 500, 500, 500), vol("W", "sW", "Rock"), "W"));
    dm.LoadGDML(dir() + "/main.gdml");
    VC_EXPECT(n1 == 3 && dm.GetSectors().size() == 2 && where(dm, {1, 1, 1}) == "Rock" && where(dm, {300, 0, 0}).empty(), "reimport", "importing a second file leaves ", dm.GetSectors().size(), " sectors, ", where(dm, {1, 1, 1}));
}

int main(int argc, char **argv) {
    std::vector<vc::Case> c;
    auto family = [&](S n, int of, std::function<void(int, int)> f) { for (int p = 0; p < of; ++p) c.push_back({of > 1 ? n + "-" + std::to_string(p) : n, [=] { f(p, of); cleanup(); rmdir(dir().c_str()); }, 1800}); };
    family("modules", 4, modules); family("trees", 6, trees); family("booleans", 8, booleans); family("solids", 6, solids_); family("loops", 8, loops); family("materials", 3, materials);
    family("names", 3, names); family("addresses", 3, addresses); family("includes", 2, includes); family("replicas", 2, replicas); family("reported", 1, reported);
    return vc::run(argc, argv, c);
}
