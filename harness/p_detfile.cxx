// P30: detector description files (densities.dat grammar) and fiducial-volume lines.
// Files are generated from structured descriptions, loaded with the real parser, and the model probed point by
// point against an independent evaluation of the description; malformed lines have to be refused.
#include "vc.h"
#include "shapes.h"
#include "SIREN/detector/DetectorModel.h"
#include "SIREN/detector/MaterialModel.h"
#include "SIREN/detector/Coordinates.h"
#include <algorithm>
#include <array>
#include <fstream>
#include <memory>
#include <sys/stat.h>
#include <dirent.h>
using namespace siren::detector;
using siren::math::Vector3D;
using siren::math::Quaternion;
using Str = std::string;
using V3 = std::array<double, 3>;
using M3 = std::function<double(V3 const &)>;                    // > 0 inside; magnitude bounds the distance

static void at_(Str const &s) { vc::note(s); vc::state(s); }
static std::set<Str> made_;
static Str dir() {
    static Str d;
    if (d.empty()) {
        char const *t = getenv("VERIF_SCRATCH"); Str tpl = Str(t ? t : "/tmp") + "/detXXXXXX";
        std::vector<char> b(tpl.begin(), tpl.end()); b.push_back(0);
        if (!mkdtemp(b.data())) { perror("mkdtemp"); exit(2); }
        d = b.data();
    }
    return d;
}
static void put(Str const &name, Str const &text) {
    FILE *f = fopen((dir() + "/" + name).c_str(), "w"); if (!f) { perror("scratch"); exit(2); }
    fwrite(text.data(), 1, text.size(), f); fclose(f); made_.insert(name);
}
static void cleanup() { for (auto const &f : made_) unlink((dir() + "/" + f).c_str()); made_.clear(); for (char const *s : {"p/densities", "p/Detectors", "p", ""}) rmdir((dir() + "/" + s).c_str()); }

// ---- rotations: Euler angles z-x-z in the rotating frame: R = Rz(a) Rx(b) Rz(g), active --------------------------
static V3 rz(double a, V3 v) { double c = std::cos(a), s = std::sin(a); return {c * v[0] - s * v[1], s * v[0] + c * v[1], v[2]}; }
static V3 rx(double a, V3 v) { double c = std::cos(a), s = std::sin(a); return {v[0], c * v[1] - s * v[2], s * v[1] + c * v[2]}; }
struct Pl { double x = 0, y = 0, z = 0, a = 0, b = 0, g = 0; };
static V3 out(Pl const &p, V3 v) { v = rz(p.a, rx(p.b, rz(p.g, v))); return {v[0] + p.x, v[1] + p.y, v[2] + p.z}; }            // local -> global
static V3 in(Pl const &p, V3 v) { return rz(-p.g, rx(-p.b, rz(-p.a, {v[0] - p.x, v[1] - p.y, v[2] - p.z}))); }                 // global -> local
static Str pls(Pl const &p) { return vc::cat(p.x, " ", p.y, " ", p.z, " ", p.a, " ", p.b, " ", p.g); }
static Vector3D vec(V3 p) { return Vector3D(p[0], p[1], p[2]); }

struct Sh { Str text; M3 m; double size; };
static std::vector<Sh> shapes_() {
    std::vector<Sh> o;
    auto r = [](V3 const &p) { return std::hypot(p[0], p[1]); };
    o.push_back({"sphere # 2.5", [](V3 const &p) { return 2.5 - std::sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]); }, 2.5});
    o.push_back({"box # 2 3 4", [](V3 const &p) { return std::min({1 - std::fabs(p[0]), 1.5 - std::fabs(p[1]), 2 - std::fabs(p[2])}); }, 2});
    o.push_back({"cylinder # 2 0.7 3", [r](V3 const &p) { return std::min({2 - r(p), r(p) - 0.7, 1.5 - std::fabs(p[2])}); }, 2});
    o.push_back({"cone # 0.2 1 0.5 2 3", [r](V3 const &p) { double f = (p[2] + 1.5) / 3; return 0.7 * std::min({1 + f - r(p), r(p) - (0.2 + 0.3 * f), 1.5 - std::fabs(p[2])}); }, 2});
    o.push_back({"trd # 1 2 1.5 0.5 1.7", [](V3 const &p) { double f = (p[2] + 1.7) / 3.4; return 0.6 * std::min({1 + f - std::fabs(p[0]), 1.5 - f - std::fabs(p[1]), 1.7 - std::fabs(p[2])}); }, 2});
    o.push_back({"extr # 5 -1 -1 1.5 -1 2 0.5 0 1.5 -1 1 3 -1.5 0 0 1 0 0.3 -0.2 1.2 1 0 0 0.5", [](V3 const &p) {
        if (p[2] <= -1.5 || p[2] >= 1) return -std::max(-1.5 - p[2], p[2] - 1) - 1e-12;
        bool lo = p[2] < 0; double f = lo ? (p[2] + 1.5) / 1.5 : p[2], ox = lo ? 0.3 * f : 0.3 * (1 - f), oy = lo ? -0.2 * f : -0.2 * (1 - f), s = lo ? 1 + 0.2 * f : 1.2 - 0.7 * f;
        double m = 0.4 * shapes::polym((p[0] - ox) / s, (p[1] - oy) / s, {{{-1, -1}}, {{1.5, -1}}, {{2, 0.5}}, {{0, 1.5}}, {{-1, 1}}});
        return m > 0 ? std::min({m, p[2] + 1.5, 1 - p[2], std::fabs(p[2])}) : m; }, 2.5});
    return o;
}
struct De { Str text; std::function<double(V3 const &)> f; };
static std::vector<De> densities() {
    return {{"constant 2.65", [](V3 const &) { return 2.65; }}, {"radial_polynomial 0 0 0 1 0.000811", [](V3 const &) { return 0.000811; }},
        {"radial_polynomial 0.5 -1 2 3 1.5 -0.05 1e-2", [](V3 const &p) { double r = std::sqrt((p[0] - 0.5) * (p[0] - 0.5) + (p[1] + 1) * (p[1] + 1) + (p[2] - 2) * (p[2] - 2)); return 1.5 - 0.05 * r + 0.01 * r * r; }}};
}
static std::vector<Pl> placements() { return {{0, 0, 0, 0, 0, 0}, {1, -2, 0.5, 0, 0, 0}, {-1, 0.5, 2, 0.4, 1.1, -0.7}}; }
static std::vector<Str> const MATN = {"ROCK", "ICE", "AIR2", "IRON"};
static MaterialModel materials(MaterialModel m) { int z = 0; for (auto const &n : MATN) { ++z; m.AddMaterial(n, std::map<int, double>{{1000000000 + (10 + z) * 10000 + (20 + 2 * z) * 10, 1.0}}); } return m; }
struct Obj { Sh s; Pl p; Str label, mat; De d; };
static Str line(Obj const &o) { Str t = o.s.text; t.replace(t.find('#'), 1, pls(o.p)); return "object " + t + " " + o.label + " " + o.mat + " " + o.d.text; }
static std::vector<V3> lattice(double h, int n) { std::vector<V3> v; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) v.push_back({h * (2.0 * i / (n - 1) - 1) + 0.013, h * (2.0 * j / (n - 1) - 1) - 0.017, h * (2.0 * k / (n - 1) - 1) + 0.011}); return v; }

static std::shared_ptr<DetectorModel> fresh() { auto dm = std::make_shared<DetectorModel>(); dm->SetMaterials(materials(dm->GetMaterials())); return dm; }
static void probe(Str const &key, Str const &what, DetectorModel const &dm, std::vector<Obj> const &objs, Pl const &det, std::vector<V3> const &pts) {
    vc::trace();
    for (V3 const &p : pts) {
        int hit = -1; double safe = 1e9;
        for (size_t i = 0; i < objs.size(); ++i) { double m = objs[i].s.m(in(objs[i].p, p)); safe = std::min(safe, std::fabs(m)); if (m > 0) hit = (int)i; }
        if (safe < 1e-3) continue;
        DetectorPosition q(vec(in(det, p)));
        auto s = dm.GetContainingSector(q);
        Str want = hit < 0 ? "UNIVERSE" : objs[hit].label;
        Str got = s.level == std::numeric_limits<int>::min() ? "UNIVERSE" : s.name;
        VC_EXPECT(got == want, key + "-sector", what, ": at (", p[0], ",", p[1], ",", p[2], ") there is ", got, " instead of ", want);
        if (hit < 0 || got != want) continue;
        double rho = dm.GetMassDensity(q), w = objs[hit].d.f(p);
        VC_EXPECT(vc::close(rho, w, 1e-9), key + "-density", what, ": at (", p[0], ",", p[1], ",", p[2], ") the density is ", rho, " instead of ", w);
        VC_EXPECT(dm.GetMaterials().GetMaterialName(s.material_id) == objs[hit].mat, key + "-material", what, ": ", got, " is made of ", dm.GetMaterials().GetMaterialName(s.material_id), " instead of ", objs[hit].mat);
    }
}
static Str spell(Str const &l, int style) {
    switch (style) {
        case 1: { Str o; for (char c : l) o += c == ' ' ? Str("\t  ") : Str(1, c); return "  " + o + "  \t"; }
        case 2: return l + " # object box 0 0 0 0 0 0 9 9 9 x ROCK constant 5";
        case 3: return l + "\r";
        case 4: return "# a remark: object\n\n   \n" + l + "#";
        default: return l;
    }
}
static std::vector<std::pair<Str, Pl>> detlines() {
    return {{"", {}}, {"detector 1 2 3", {1, 2, 3}}, {"detector -4 0.5 1e1 0.3 0.8 -1.2", {-4, 0.5, 10, 0.3, 0.8, -1.2}}, {"detector 0 0 0 0 1.5 0", {0, 0, 0, 0, 1.5, 0}}};
}

// ---- files of up to three objects -----------------------------------------------------------------------------------
static void filesweep(int part, int of) {
    auto S = shapes_(); auto D = densities(); auto P = placements(); auto L = detlines();
    std::vector<Obj> menu;
    for (size_t s = 0; s < S.size(); ++s) for (size_t p = 0; p < P.size(); ++p) menu.push_back({S[s], P[p], vc::cat("part", s, "_", p), MATN[(s + p) % MATN.size()], D[(s + 2 * p) % D.size()]});
    auto pts = lattice(3.5, vc::thorough() ? 9 : 7);
    int k = 0;
    auto run = [&](std::vector<Obj> const &objs, int style, size_t dl, int where) {
        Str text; std::vector<Str> lines; for (auto const &o : objs) lines.push_back(spell(line(o), style));
        if (!L[dl].first.empty()) lines.insert(where ? lines.end() : lines.begin(), spell(L[dl].first, style));
        for (size_t i = 0; i < lines.size(); ++i) text += lines[i] + (i + 1 == lines.size() && style == 0 ? "" : "\n");
        put("d.dat", text);
        Str what = vc::cat("spelling ", style, ":"); for (auto const &o : objs) what += " [" + line(o) + "]"; what += " [" + L[dl].first + "]";
        at_(what); vc::step();
        try {
            auto dm = fresh(); dm->LoadDetectorModel(dir() + "/d.dat");
            VC_EXPECT(dm->GetSectors().size() == objs.size() + 1, "count", what, ": ", dm->GetSectors().size(), " sectors");
            for (auto const &o : objs) VC_EXPECT(dm->GetSector(o.label).name == o.label, "by-name", what, ": no sector ", o.label);
            auto o = dm->GetDetectorOrigin().get();
            VC_EXPECT(vc::close(o.GetX(), L[dl].second.x, 1e-12) && vc::close(o.GetY(), L[dl].second.y, 1e-12) && vc::close(o.GetZ(), L[dl].second.z, 1e-12), "origin", what, ": origin ", o.GetX(), " ", o.GetY(), " ", o.GetZ());
            probe("file", what, *dm, objs, L[dl].second, pts);
        } catch (std::exception const &e) { VC_EXPECT(false, "refused", what, ": ", e.what()); }
    };
    for (size_t a = 0; a < menu.size(); ++a) for (int style = 0; style < 5; ++style) for (size_t dl = 0; dl < L.size(); ++dl) for (int w = 0; w < 2; ++w) { if (k++ % of != part) continue; run({menu[a]}, style, dl, w); }
    for (size_t a = 0; a < menu.size(); ++a) for (size_t b = 0; b < menu.size(); ++b) { if (a == b) continue; if (k++ % of != part) continue; run({menu[a], menu[b]}, (a + b) % 5, (a * 3 + b) % L.size(), (a / 2) % 2); }
    if (vc::thorough()) for (size_t a = 0; a < menu.size(); ++a) for (size_t b = 0; b < menu.size(); ++b) for (size_t c = 0; c < menu.size(); ++c) { if (a == b || a == c || b == c) continue; if (k++ % of != part) continue; run({menu[a], menu[b], menu[c]}, (a + b + c) % 5, (a + b + c) % L.size(), c % 2); }
}

// ---- lines that are not descriptions ----------------------------------------------------------------------------------
static std::vector<Str> tokens(Str const &l) { std::istringstream i(l); std::vector<Str> t; Str x; while (i >> x) t.push_back(x); return t; }
static Str join(std::vector<Str> const &t) { Str o; for (size_t i = 0; i < t.size(); ++i) o += (i ? " " : "") + t[i]; return o; }
static bool number(Str const &t) { char *e; strtod(t.c_str(), &e); return e != t.c_str() && !*e; }
static void malformed(int part, int of) {
    auto S = shapes_(); auto D = densities(); auto P = placements();
    int k = 0;
    auto refuse = [&](Str const &l, Str const &why, Str const &before) {
        if (k++ % of != part) return;
        for (int style : {0, 1, 2, 3}) {
            put("d.dat", before + spell(l, style) + "\n"); at_(l); vc::step();
            bool threw = false; Str got;
            try { auto dm = fresh(); dm->LoadDetectorModel(dir() + "/d.dat"); got = vc::cat(dm->GetSectors().size(), " sectors"); } catch (std::exception const &) { threw = true; }
            VC_EXPECT(threw, "accepted", why, ": \"", l, "\" is accepted (", got, ")");
        }
    };
    Str good = "object sphere 0 0 0 0 0 0 9 ball ROCK constant 1\n";
    for (size_t s = 0; s < S.size(); ++s) for (size_t d = 0; d < D.size(); ++d) for (Str const &before : {Str(""), good}) {
        Obj o{S[s], P[(s + d) % 3], "label", "ICE", D[d]};
        auto t = tokens(line(o));
        for (size_t n = 1; n < t.size(); ++n) refuse(join({t.begin(), t.begin() + n}), "a truncated line", before);
        for (size_t n = 1; n < t.size(); ++n) {
            auto u = t; u[n] = "%";
            if (t[n] == o.label) continue;                        // any label will do
            refuse(join(u), "a word that means nothing here", before);
        }
    }
    for (Str l : {"detector", "detector 1", "detector 1 2", "detector 1 2 3 4", "detector 1 2 3 4 5", "detector x 2 3", "detector 1 2 x", "detector 1 2 3 x 5 6", "detector 1 2 3 4 5 x"}) for (Str const &before : {Str(""), good}) refuse(l, "an incomplete detector position", before);
    refuse("object sphere 0 0 0 0 0 0 1 ball ROCK constant 1", "a label that is taken", good);
    refuse("object sphere 0 0 0 0 0 0 1 two UNOBTAINIUM constant 1", "an undefined material", good);
}

// ---- the fiducial volume ------------------------------------------------------------------------------------------------
static void fiducial(int part, int of) {
    auto S = shapes_(); auto P = placements(); auto L = detlines();
    int k = 0;
    for (size_t s = 0; s < S.size(); ++s) for (size_t p = 0; p < P.size(); ++p) for (size_t l = 1; l < L.size(); ++l) for (int key = 0; key < 2; ++key) for (Str const &co : {"", "detector_coords ", "geometry_coords "}) for (int fs = 0; fs < 3; ++fs) for (int os = 0; os < 4; ++os) for (int how = 0; how < 2; ++how) {
        if (k++ % of != part) continue;
        Str t = S[s].text; t.replace(t.find('#'), 1, pls(P[p]));
        Str fl = (key ? "fiducial " : "") + co + t + (fs == 0 ? "" : fs == 1 ? "\n" : "   \r\n");
        Str ol = (key ? L[l].first : L[l].first.substr(9)) + (os == 0 ? "" : os == 1 ? "\n" : os == 2 ? "  \t\r\n" : "   # centre of the detector\n");
        Pl det = L[l].second;
        Str what = vc::cat("fiducial line \"", fl, "\" detector line \"", ol, "\"");
        at_(what); vc::step();
        try {
            std::shared_ptr<siren::geometry::Geometry> g;
            if (how == 0) g = DetectorModel::ParseFiducialVolume(fl, ol);
            else {
                if (os) continue;
                auto dm = fresh(); put("d.dat", L[l].first + "\n"); dm->LoadDetectorModel(dir() + "/d.dat");
                g = DetectorModel::ParseFiducialVolume(fl, dm->GetDetectorOrigin().get(), dm->GetDetectorRotation());
            }
            vc::trace();
            for (V3 const &q : lattice(S[s].size * 1.3, 6)) {
                V3 in_volume = q, at;                                                   // local point
                V3 frame = out(P[p], in_volume);                                        // the frame of the line
                at = co == "geometry_coords " ? in(det, frame) : frame;                 // detector frame
                double m = S[s].m(q); if (std::fabs(m) < 1e-3) continue;
                bool inside = g->IsInside(vec(at));
                VC_EXPECT(inside == (m > 0), "fiducial", what, ": the point (", at[0], ",", at[1], ",", at[2], ") of the detector frame is ", inside ? "inside" : "outside");
            }
        } catch (std::exception const &e) { VC_EXPECT(false, "fiducial-refused", what, ": ", e.what()); }
    }
    if (part) return;
    for (size_t s = 0; s < S.size(); ++s) {
        Str t = S[s].text; t.replace(t.find('#'), 1, pls(P[2])); auto tk = tokens("fiducial " + t);
        for (size_t n = 1; n < tk.size(); ++n) for (int what = 0; what < 2; ++what) {
            auto u = tk; if (what) u[n] = "%"; else u.resize(n);
            Str l = join(u); at_(l); vc::step(); bool threw = false;
            try { DetectorModel::ParseFiducialVolume(l, "detector 0 0 0"); } catch (std::exception const &) { threw = true; }
            VC_EXPECT(threw, "fiducial-accepted", "\"", l, "\" is accepted");
        }
        for (Str l : {"detector", "detector 1 2", "detector 1 2 3 4", "detector 1 2 x", "detector 1 2 3 4 5 x"}) {
            bool threw = false; at_(l);
            try { DetectorModel::ParseFiducialVolume("fiducial " + t, l); } catch (std::exception const &) { threw = true; }
            VC_EXPECT(threw, "fiducial-accepted", "detector line \"", l, "\" is accepted");
        }
    }
}

// ---- which file is read, and reading again -------------------------------------------------------------------------------
static void resolution(int part, int of) {
    if (part) return;
    (void)of;
    for (char const *s : {"/p", "/p/densities", "/p/Detectors"}) mkdir((dir() + s).c_str(), 0700);
    std::vector<Str> places = {"p/densities/m", "p/densities/m.dat", "p/Detectors/m", "p/Detectors/m.dat", "p/m", "p/m.dat"};
    if (chdir(dir().c_str())) { perror("chdir"); exit(2); }
    for (unsigned bits = 0; bits < 64; ++bits) {
        int first = -1;
        for (size_t i = 0; i < places.size(); ++i) {
            if (bits >> i & 1) { put(places[i], vc::cat("object sphere 0 0 0 0 0 0 5 from", i, " ROCK constant ", i + 1, "\n")); if (first < 0) first = (int)i; }
            else unlink((dir() + "/" + places[i]).c_str());
        }
        at_(vc::cat("places ", bits)); vc::step();
        auto dm = fresh(); dm->SetPath(dir() + "/p");
        try {
            dm->LoadDetectorModel("m");
            VC_EXPECT(first >= 0, "found", "a missing file was read");
            if (first >= 0) VC_EXPECT(dm->GetSectors().size() == 2 && dm->GetSectors()[1].name == vc::cat("from", first), "found", "files in places ", bits, ": sector ", dm->GetSectors().back().name);
        } catch (std::exception const &e) { VC_EXPECT(first < 0, "found", "files in places ", bits, ": ", e.what()); }
    }
    // a model loaded before leaves nothing behind
    auto S = shapes_(); auto D = densities(); auto P = placements(); auto L = detlines();
    for (size_t a = 0; a < S.size(); ++a) for (size_t b = 0; b < S.size(); ++b) for (size_t l = 1; l < L.size(); ++l) {
        Obj A{S[a], P[0], "first", "ROCK", D[0]}, B{S[b], P[1], "second", "ICE", D[2]};
        put("a.dat", line(A) + "\n" + L[1 + l % 3].first + "\n"); put("b.dat", line(B) + "\n" + L[l].first + "\n");
        auto dm = fresh(); at_("reload"); vc::step();
        try {
            dm->LoadDetectorModel(dir() + "/a.dat"); dm->GetMassDensity(DetectorPosition(Vector3D(0, 0, 0)));
            dm->LoadDetectorModel(dir() + "/b.dat");
            VC_EXPECT(dm->GetSectors().size() == 2, "reload", "sectors of the first file are left: ", dm->GetSectors().size());
            probe("reload", "second file after a first: " + line(B), *dm, {B}, L[l].second, lattice(3.5, 5));
        } catch (std::exception const &e) { VC_EXPECT(false, "reload", e.what()); }
    }
}

// ---- the detectors that come with SIREN -----------------------------------------------------------------------------------
static std::vector<Str> list(Str const &d) { std::vector<Str> o; if (DIR *h = opendir(d.c_str())) { while (dirent *e = readdir(h)) if (e->d_name[0] != '.') o.push_back(e->d_name); closedir(h); } std::sort(o.begin(), o.end()); return o; }
static Str repo() { char const *r = getenv("VERIF_REPO"); return r ? r : "/repo"; }
static std::vector<Str> shipped_dirs() {
    std::vector<Str> o; Str base = repo() + "/resources/detectors";
    for (auto const &d : list(base)) for (auto const &v : list(base + "/" + d)) { Str p = base + "/" + d + "/" + v; if (std::ifstream(p + "/densities.dat") && std::ifstream(p + "/materials.dat")) o.push_back(p); }
    return o;
}
static void shipped(Str const &d) {
    struct O { Str label, mat; Pl p; M3 m; std::vector<double> par; Str kind; std::function<double(V3 const &)> rho; };
    std::vector<O> objs; Pl det;
    std::ifstream f(d + "/densities.dat"); Str l;
    while (std::getline(f, l)) {
        l = l.substr(0, l.find('#')); auto t = tokens(l); if (t.empty()) continue;
        size_t i = 0; auto nx = [&] { return std::stod(t.at(i++)); };
        if (t[0] == "detector") { i = 1; det.x = nx(); det.y = nx(); det.z = nx(); if (t.size() > 4) { det.a = nx(); det.b = nx(); det.g = nx(); } }
        if (t[0] != "object") continue;
        O o; o.kind = t[1]; i = 2; o.p.x = nx(); o.p.y = nx(); o.p.z = nx(); o.p.a = nx(); o.p.b = nx(); o.p.g = nx();
        if (o.kind == "sphere") { double R = nx(); o.par = {R, R, R}; o.m = [R](V3 const &p) { return R - std::sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]); }; }
        else if (o.kind == "box") { double x = nx(), y = nx(), z = nx(); o.par = {x / 2, y / 2, z / 2}; o.m = [=](V3 const &p) { return std::min({x / 2 - std::fabs(p[0]), y / 2 - std::fabs(p[1]), z / 2 - std::fabs(p[2])}); }; }
        else if (o.kind == "cylinder") { double R = nx(), r = nx(), z = nx(); o.par = {R, R, z / 2}; o.m = [=](V3 const &p) { double q = std::hypot(p[0], p[1]), m = std::min(R - q, z / 2 - std::fabs(p[2])); return r > 0 ? std::min(m, q - r) : m; }; }
        else if (o.kind == "trd") { double x1 = nx(), x2 = nx(), y1 = nx(), y2 = nx(), z = nx(); o.par = {std::max(x1, x2), std::max(y1, y2), z}; o.m = [=](V3 const &p) { double f2 = (p[2] + z) / (2 * z); return 0.5 * std::min({x1 + f2 * (x2 - x1) - std::fabs(p[0]), y1 + f2 * (y2 - y1) - std::fabs(p[1]), z - std::fabs(p[2])}); }; }
        else if (o.kind == "extr") {
            int n = (int)nx(); std::vector<std::array<double, 2>> v; double X = 0, Y = 0; for (int a = 0; a < n; ++a) { double x = nx(), y = nx(); v.push_back({x, y}); X = std::max(X, std::fabs(x)); Y = std::max(Y, std::fabs(y)); }
            int z = (int)nx(); std::vector<std::array<double, 4>> s; for (int a = 0; a < z; ++a) { double q0 = nx(), q1 = nx(), q2 = nx(), q3 = nx(); s.push_back({q0, q1, q2, q3}); }
            double Z = 0; for (auto const &q : s) Z = std::max(Z, std::fabs(q[0]));
            o.par = {X, Y, Z};
            // only judged if the polygon is convex and the sections ascend
            o.m = [=](V3 const &p) {
                if (p[2] <= s.front()[0] || p[2] >= s.back()[0]) return -std::max(s.front()[0] - p[2], p[2] - s.back()[0]);
                for (size_t a = 0; a + 1 < s.size(); ++a) if (p[2] >= s[a][0] && p[2] <= s[a + 1][0]) {
                    double ft = (p[2] - s[a][0]) / (s[a + 1][0] - s[a][0]), ox = s[a][1] + ft * (s[a + 1][1] - s[a][1]), oy = s[a][2] + ft * (s[a + 1][2] - s[a][2]), sc = s[a][3] + ft * (s[a + 1][3] - s[a][3]);
                    double m = 0.4 * shapes::polym((p[0] - ox) / sc, (p[1] - oy) / sc, v), e = std::min(p[2] - s[a][0], s[a + 1][0] - p[2]);
                    return m > 0 ? std::min(m, e) : m;
                }
                return 0.0; };
        }
        else { VC_EXPECT(false, "shipped-kind", d, ": ", l); continue; }
        o.label = t.at(i++); o.mat = t.at(i++);
        Str k = t.at(i++);
        if (k == "constant") { double c = nx(); o.rho = [c](V3 const &) { return c; }; }
        else { double x = nx(), y = nx(), z = nx(); int n = (int)nx(); std::vector<double> c; for (int a = 0; a < n; ++a) c.push_back(nx()); o.rho = [=](V3 const &p) { double r = std::sqrt((p[0] - x) * (p[0] - x) + (p[1] - y) * (p[1] - y) + (p[2] - z) * (p[2] - z)), v = 0; for (size_t a = c.size(); a-- > 0;) v = v * r + c[a]; return v; }; }
        objs.push_back(o);
    }
    at_(d); vc::step(); vc::trace();
    DetectorModel dm(d + "/densities.dat", d + "/materials.dat");
    VC_EXPECT(dm.GetSectors().size() == objs.size() + 1, "shipped-count", d, ": ", dm.GetSectors().size(), " sectors for ", objs.size(), " objects");
    for (auto const &o : objs) for (double fx : {-1.02, -0.6, 0.03, 0.6, 0.98}) for (double fy : {-0.97, -0.5, 0.01, 0.55, 1.03}) for (double fz : {-1.03, -0.55, 0.02, 0.7, 0.97}) {
        V3 p = out(o.p, {fx * o.par[0], fy * o.par[1], fz * o.par[2]});
        int hit = -1; bool near = false;
        for (size_t i = 0; i < objs.size(); ++i) { double m = objs[i].m(in(objs[i].p, p)), sc = 1e-9 * (std::fabs(p[0]) + std::fabs(p[1]) + std::fabs(p[2])) + 1e-6; if (std::fabs(m) < sc) near = true; if (m > 0) hit = (int)i; }
        if (near) continue;
        vc::step();
        DetectorPosition q(vec(in(det, p))); auto s = dm.GetContainingSector(q);
        Str got = s.level == std::numeric_limits<int>::min() ? "UNIVERSE" : s.name, want = hit < 0 ? "UNIVERSE" : objs[hit].label;
        VC_EXPECT(got == want, "shipped-sector", d, ": at (", p[0], ",", p[1], ",", p[2], ") there is ", got, " instead of ", want);
        if (hit < 0 || got != want) continue;
        double rho = dm.GetMassDensity(q), w = objs[hit].rho(p);
        VC_EXPECT(vc::close(rho, w, 1e-6), "shipped-density", d, ": at (", p[0], ",", p[1], ",", p[2], ") in ", got, " the density is ", rho, " instead of ", w);
        VC_EXPECT(dm.GetMaterials().GetMaterialName(s.material_id) == objs[hit].mat, "shipped-material", d, ": ", got);
    }
}

int main(int argc, char **argv) {
    std::vector<vc::Case> c;
    auto family = [&](Str n, int of, std::function<void(int, int)> f) { for (int p = 0; p < of; ++p) c.push_back({of > 1 ? n + "-" + std::to_string(p) : n, [=] { f(p, of); cleanup(); }, 1800}); };
    family("files", 6, filesweep); family("malformed", 4, malformed); family("fiducial", 4, fiducial); family("resolution", 1, resolution);
    for (auto const &d : shipped_dirs()) c.push_back({"shipped-" + d.substr(d.rfind('/') + 1), [d] { shipped(d); }, 600});
    return vc::run(argc, argv, c);
}
