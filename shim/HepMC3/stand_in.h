// A stand-in for the part of HepMC3 (3.2/3.3) that SIREN uses, for machines without it.  Semantics that matter here are kept:
// attributes belong to the event (adding one to an object outside an event is lost), a particle without a production vertex hangs
// on the event's root vertex (id 0), an incoming particle is moved from an earlier end vertex, a file keeps attributes as text.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iomanip>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
namespace HepMC3 {
struct Units { enum MomentumUnit { MEV, GEV }; enum LengthUnit { MM, CM }; };
class FourVector {
    double a_ = 0, b_ = 0, c_ = 0, d_ = 0;
public:
    FourVector() {}
    FourVector(double x, double y, double z, double t) : a_(x), b_(y), c_(z), d_(t) {}
    double x() const { return a_; } double y() const { return b_; } double z() const { return c_; } double t() const { return d_; }
    double px() const { return a_; } double py() const { return b_; } double pz() const { return c_; } double e() const { return d_; }
    double m() const { double s = d_ * d_ - a_ * a_ - b_ * b_ - c_ * c_; return s < 0 ? -std::sqrt(-s) : std::sqrt(s); }
};
inline std::string num(double v) { std::ostringstream o; o << std::setprecision(17) << v; return o.str(); }
struct Attribute { virtual ~Attribute() {} virtual std::string text() const = 0; virtual bool parse(std::string const &) = 0; };
struct IntAttribute : Attribute { int v = 0; IntAttribute() {} IntAttribute(int x) : v(x) {} int value() const { return v; } std::string text() const override { return std::to_string(v); } bool parse(std::string const &s) override { v = atoi(s.c_str()); return true; } };
struct ULongAttribute : Attribute { unsigned long v = 0; ULongAttribute() {} ULongAttribute(unsigned long x) : v(x) {} unsigned long value() const { return v; } std::string text() const override { return std::to_string(v); } bool parse(std::string const &s) override { v = strtoul(s.c_str(), nullptr, 0); return true; } };
struct DoubleAttribute : Attribute { double v = 0; DoubleAttribute() {} DoubleAttribute(double x) : v(x) {} double value() const { return v; } std::string text() const override { return num(v); } bool parse(std::string const &s) override { v = atof(s.c_str()); return true; } };
struct StringAttribute : Attribute { std::string v; StringAttribute() {} StringAttribute(std::string x) : v(x) {} std::string value() const { return v; } std::string text() const override { return v; } bool parse(std::string const &s) override { v = s; return true; } };
template<class T> struct VectorAttribute_ : Attribute {
    std::vector<T> v; VectorAttribute_() {} VectorAttribute_(std::vector<T> x) : v(x) {} std::vector<T> value() const { return v; }
    std::string text() const override { std::ostringstream o; o << std::setprecision(17); for (auto const &x : v) o << x << " "; return o.str(); }
    bool parse(std::string const &s) override { std::istringstream i(s); T x; v.clear(); while (i >> x) v.push_back(x); return true; }
};
using VectorIntAttribute = VectorAttribute_<int>; using VectorDoubleAttribute = VectorAttribute_<double>; using VectorStringAttribute = VectorAttribute_<std::string>;
struct AttributeSet {
    std::map<std::string, std::shared_ptr<Attribute>> own; std::map<std::string, std::string> raw;
    std::map<std::string, std::string> texts() const { auto t = raw; for (auto &k : own) t[k.first] = k.second->text(); return t; }
    template<class T> std::shared_ptr<T> get(std::string const &n) const {
        auto i = own.find(n); if (i != own.end()) return std::dynamic_pointer_cast<T>(i->second);
        auto r = raw.find(n); if (r == raw.end()) return nullptr;
        auto p = std::make_shared<T>(); return p->parse(r->second) ? p : nullptr;
    }
    std::vector<std::string> names() const { std::vector<std::string> v; for (auto &k : texts()) v.push_back(k.first); return v; }
};
class GenRunInfo {
public:
    struct ToolInfo { std::string name, version, description; };
    std::vector<ToolInfo> &tools() { return tools_; }
    void set_weight_names(std::vector<std::string> const &n) { names_ = n; } std::vector<std::string> const &weight_names() const { return names_; }
    void add_attribute(std::string const &n, std::shared_ptr<Attribute> a) { at.own[n] = a; }
    template<class T> std::shared_ptr<T> attribute(std::string const &n) const { return at.get<T>(n); }
    std::vector<std::string> attribute_names() const { return at.names(); }
    AttributeSet at;
private:
    std::vector<ToolInfo> tools_; std::vector<std::string> names_;
};
class GenEvent; class GenVertex; class GenParticle;
using GenVertexPtr = std::shared_ptr<GenVertex>; using GenParticlePtr = std::shared_ptr<GenParticle>;
struct EventData { std::map<int, AttributeSet> at; std::vector<GenParticlePtr> particles; std::vector<GenVertexPtr> vertices; GenVertexPtr root; };
class Object_ {
public:
    int id() const { return id_; }
    bool add_attribute(std::string const &n, std::shared_ptr<Attribute> a) { if (!ev_) return false; ev_->at[id_].own[n] = a; ev_->at[id_].raw.erase(n); return true; }
    template<class T> std::shared_ptr<T> attribute(std::string const &n) const { return ev_ && ev_->at.count(id_) ? ev_->at[id_].template get<T>(n) : nullptr; }
    std::vector<std::string> attribute_names() const { return ev_ && ev_->at.count(id_) ? ev_->at[id_].names() : std::vector<std::string>(); }
    int id_ = 0; EventData *ev_ = nullptr;
};
class GenParticle : public Object_, public std::enable_shared_from_this<GenParticle> {
public:
    GenParticle(FourVector const &p = FourVector(), int pid = 0, int status = 0) : mom_(p), pid_(pid), st_(status) {}
    FourVector momentum() const { return mom_; } int pid() const { return pid_; } int status() const { return st_; } void set_status(int s) { st_ = s; }
    void set_generated_mass(double m) { mass_ = m; set_ = true; } bool is_generated_mass_set() const { return set_; } double generated_mass() const { return set_ ? mass_ : mom_.m(); }
    GenVertexPtr production_vertex() const { return prod_.lock(); } GenVertexPtr end_vertex() const { return end_.lock(); }
    std::weak_ptr<GenVertex> prod_, end_; FourVector mom_; int pid_, st_; double mass_ = 0; bool set_ = false;
};
class GenVertex : public Object_, public std::enable_shared_from_this<GenVertex> {
public:
    GenVertex(FourVector const &x = FourVector()) : pos_(x) {}
    FourVector position() const { return pos_; } int status() const { return st_; } void set_status(int s) { st_ = s; }
    std::vector<GenParticlePtr> const &particles_in() const { return in_; } std::vector<GenParticlePtr> const &particles_out() const { return out_; }
    static void drop(std::vector<GenParticlePtr> &v, GenParticlePtr const &p) { for (size_t i = 0; i < v.size(); ++i) if (v[i] == p) { v.erase(v.begin() + i); return; } }
    void add_particle_in(GenParticlePtr p) { if (!p) return; for (auto &q : in_) if (q == p) return; in_.push_back(p); if (auto e = p->end_vertex()) drop(e->in_, p); p->end_ = shared_from_this(); if (ev_) adopt(*ev_, p); }
    void add_particle_out(GenParticlePtr p) { if (!p) return; for (auto &q : out_) if (q == p) return; out_.push_back(p); if (auto e = p->production_vertex()) drop(e->out_, p); p->prod_ = shared_from_this(); if (ev_) adopt(*ev_, p); }
    static void adopt(EventData &d, GenParticlePtr const &p) { if (p->ev_) return; p->ev_ = &d; d.particles.push_back(p); p->id_ = int(d.particles.size()); if (!p->production_vertex()) { d.root->out_.push_back(p); p->prod_ = d.root; } }
    std::vector<GenParticlePtr> in_, out_; FourVector pos_; int st_ = 0;
};
class GenEvent {
public:
    GenEvent(Units::MomentumUnit m = Units::GEV, Units::LengthUnit l = Units::MM) : mu_(m), lu_(l), d_(std::make_shared<EventData>()) { d_->root = std::make_shared<GenVertex>(); d_->root->ev_ = d_.get(); }
    void set_run_info(std::shared_ptr<GenRunInfo> r) { ri_ = r; if (r && w_.empty()) w_.assign(r->weight_names().size(), 1.0); } std::shared_ptr<GenRunInfo> run_info() const { return ri_; }
    void set_event_number(int n) { n_ = n; } int event_number() const { return n_; }
    std::vector<double> &weights() { return w_; } std::vector<double> const &weights() const { return w_; }
    Units::MomentumUnit momentum_unit() const { return mu_; } Units::LengthUnit length_unit() const { return lu_; }
    void set_units(Units::MomentumUnit m, Units::LengthUnit l) {
        double f = mu_ == m ? 1 : m == Units::GEV ? 1e-3 : 1e3, g = lu_ == l ? 1 : l == Units::CM ? 0.1 : 10;
        for (auto &p : d_->particles) { p->mom_ = FourVector(p->mom_.px() * f, p->mom_.py() * f, p->mom_.pz() * f, p->mom_.e() * f); p->mass_ *= f; }
        for (auto &v : d_->vertices) v->pos_ = FourVector(v->pos_.x() * g, v->pos_.y() * g, v->pos_.z() * g, v->pos_.t() * g);
        mu_ = m; lu_ = l;
    }
    void add_vertex(GenVertexPtr v) { if (!v || v->ev_) return; v->ev_ = d_.get(); d_->vertices.push_back(v); v->id_ = -int(d_->vertices.size()); for (auto &p : v->in_) GenVertex::adopt(*d_, p); for (auto &p : v->out_) GenVertex::adopt(*d_, p); }
    std::vector<GenVertexPtr> const &vertices() const { return d_->vertices; } std::vector<GenParticlePtr> const &particles() const { return d_->particles; }
    void add_attribute(std::string const &n, std::shared_ptr<Attribute> a) { d_->at[0].own[n] = a; }
    template<class T> std::shared_ptr<T> attribute(std::string const &n) const { return d_->at.count(0) ? d_->at[0].template get<T>(n) : nullptr; }
    std::vector<std::string> attribute_names() const { return d_->at.count(0) ? d_->at[0].names() : std::vector<std::string>(); }
    std::shared_ptr<EventData> const &data() const { return d_; }
    Units::MomentumUnit mu_; Units::LengthUnit lu_; int n_ = 0; std::vector<double> w_;
private:
    std::shared_ptr<GenRunInfo> ri_; std::shared_ptr<EventData> d_;
};
// ---- files: one item per line, fields separated by tabs ------------------------------------------------------------------------
class Writer { public: virtual ~Writer() {} virtual void write_event(GenEvent const &) = 0; virtual void close() = 0; virtual bool failed() = 0; };
class WriterAscii : public Writer {
    std::ofstream f;
public:
    WriterAscii(std::string const &name, std::shared_ptr<GenRunInfo> r = nullptr, char const *magic = "") : f(name) {
        f << magic << "HepMC::stand-in\n"; if (!r) return;
        f << "W"; for (auto &n : r->weight_names()) f << "\t" << n; f << "\n"; for (auto &t : r->tools()) f << "T\t" << t.name << "\t" << t.version << "\t" << t.description << "\n";
        for (auto &k : r->at.texts()) f << "R\t" << k.first << "\t" << k.second << "\n";
    }
    bool failed() override { return !f; } void close() override { f << "END\n"; f.close(); }
    void write_event(GenEvent const &e) override {
        f << "E\t" << e.event_number() << "\t" << int(e.mu_) << "\t" << int(e.lu_); for (double w : e.w_) f << "\t" << num(w); f << "\n"; auto &d = *e.data();
        for (auto &p : d.particles) f << "P\t" << p->id() << "\t" << p->pid() << "\t" << p->status() << "\t" << num(p->mom_.px()) << "\t" << num(p->mom_.py()) << "\t" << num(p->mom_.pz()) << "\t" << num(p->mom_.e()) << "\t" << num(p->generated_mass()) << "\n";
        for (auto &v : d.vertices) { f << "V\t" << v->id() << "\t" << v->status() << "\t" << num(v->pos_.x()) << "\t" << num(v->pos_.y()) << "\t" << num(v->pos_.z()) << "\t" << num(v->pos_.t()); for (auto &p : v->in_) f << "\ti" << p->id(); for (auto &p : v->out_) f << "\to" << p->id(); f << "\n"; }
        for (auto &k : d.at) for (auto &t : k.second.texts()) f << "A\t" << k.first << "\t" << t.first << "\t" << t.second << "\n";
    }
};
template<class T> class WriterGZ : public T { public: WriterGZ(std::string const &n, std::shared_ptr<GenRunInfo> r) : T(n, r, "\x1f\x8b") {} };
class Reader { public: virtual ~Reader() {} virtual bool read_event(GenEvent &) = 0; virtual bool failed() = 0; virtual void close() = 0; };
class ReaderAscii : public Reader {
    std::ifstream f; bool eof = false, bad = false; std::string line; std::shared_ptr<GenRunInfo> ri = std::make_shared<GenRunInfo>();
    static std::vector<std::string> cut(std::string const &s) { std::vector<std::string> v(1); for (char c : s) if (c == '\t') v.emplace_back(); else v.back() += c; return v; }
public:
    ReaderAscii(std::string const &n) : f(n) {
        bad = !f; std::getline(f, line);
        while (std::getline(f, line)) { auto c = cut(line); if (c[0] == "W") ri->set_weight_names({c.begin() + 1, c.end()}); else if (c[0] == "R") ri->at.raw[c[1]] = c[2]; else if (c[0] == "T") ri->tools().push_back({c[1], c[2], c[3]}); else break; }
    }
    bool failed() override { return bad || eof; } void close() override { f.close(); }
    bool read_event(GenEvent &e) override {
        e = GenEvent(); if (line.substr(0, 1) != "E" || line == "END") { eof = true; if (line != "END") { bad = true; return false; } return true; }
        auto c = cut(line); e.set_event_number(atoi(c[1].c_str())); e.mu_ = Units::MomentumUnit(atoi(c[2].c_str())); e.lu_ = Units::LengthUnit(atoi(c[3].c_str())); for (size_t i = 4; i < c.size(); ++i) e.w_.push_back(atof(c[i].c_str())); e.set_run_info(ri);
        auto &d = *e.data(); std::map<int, GenParticlePtr> ps; auto at = [&](size_t i) { return atof(c[i].c_str()); }; line.clear();
        while (std::getline(f, line)) {
            c = cut(line);
            if (c[0] == "P") { auto p = std::make_shared<GenParticle>(FourVector(at(4), at(5), at(6), at(7)), atoi(c[2].c_str()), atoi(c[3].c_str())); p->set_generated_mass(at(8)); p->id_ = atoi(c[1].c_str()); p->ev_ = &d; d.particles.push_back(p); ps[p->id_] = p; }
            else if (c[0] == "V") { auto v = std::make_shared<GenVertex>(FourVector(at(3), at(4), at(5), at(6))); v->set_status(atoi(c[2].c_str())); for (size_t i = 7; i < c.size(); ++i) { auto p = ps[atoi(c[i].c_str() + 1)]; if (c[i][0] == 'i') v->add_particle_in(p); else v->add_particle_out(p); } v->id_ = atoi(c[1].c_str()); v->ev_ = &d; d.vertices.push_back(v); }
            else if (c[0] == "A") d.at[atoi(c[1].c_str())].raw[c[2]] = c.size() > 3 ? c[3] : "";
            else break;
            line.clear();
        }
        for (auto &p : d.particles) if (!p->production_vertex()) { p->prod_ = d.root; d.root->out_.push_back(p); }
        return true;
    }
};
template<class T> class ReaderGZ : public T { public: ReaderGZ(std::string const &n) : T(n) {} };
}
