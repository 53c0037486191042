// Every distribution class of the library in several parameter settings.  Two settings with the same
// label describe the same distribution; different labels describe different ones.
#pragma once
#include "world.h"
#include "SIREN/distributions/serializable.h"
#include "SIREN/distributions/primary/energy/PiDARNuEDistribution.h"
#include "SIREN/distributions/primary/energy_direction/Tabulated2DFluxDistribution.h"
#include "SIREN/distributions/primary/PrimaryExternalDistribution.h"
#include "SIREN/distributions/primary/area/FixedTargetAreaDistribution.h"
#include "SIREN/distributions/primary/vertex/FixedTargetPositionDistribution.h"
#include "SIREN/distributions/primary/vertex/SphereVolumePositionDistribution.h"
#include "SIREN/distributions/primary/vertex/PrimaryBoundedVertexDistribution.h"
#include "SIREN/distributions/primary/vertex/PrimaryPhysicalVertexDistribution.h"
#include "SIREN/geometry/Placement.h"
#include <fstream>
namespace zoo {
using namespace siren::distributions;
using siren::math::Vector3D; using siren::math::Quaternion; using siren::geometry::Placement; using siren::geometry::Cylinder; using siren::geometry::Sphere; using siren::geometry::Box; using siren::geometry::Geometry;
using siren::dataclasses::ParticleType;
struct Entry { std::string label, type; std::shared_ptr<WeightableDistribution> d; };
// the part of the zoo that has no parameters shared by several constructors is enumerated over the full
// product of its parameter values
inline std::string scratch() { char const *s = getenv("VERIF_SCRATCH"); return s ? s : "/tmp"; }
inline std::string csv(int v) {
    std::string f = vc::cat(scratch(), "/zoo-", getpid(), "-", v, ".csv");
    std::ofstream o(f);
    if (v == 0) o << "E,px,py,pz,m\n10,0,0,10,0\n20,0,20,0,0\n";
    if (v == 1) o << "E,px,py,pz,m\n10,0,0,10,0\n25,0,25,0,0\n";
    if (v == 2) o << "E,x,y,z\n10,1,2,3\n20,4,5,6\n";
    if (v == 3) o << "E,px,py,pz,m\n10,0,0,10,0\n20,0,20,0,0\n30,0,30,0,0\n";
    return f;
}
inline std::vector<std::shared_ptr<Geometry>> shapes() {
    return {nullptr, std::make_shared<Sphere>(5.0, 0.0), std::make_shared<Sphere>(6.0, 0.0), std::make_shared<Box>(5.0, 5.0, 5.0), std::make_shared<Sphere>(Placement(Vector3D(1, 0, 0)), 5.0, 0.0)};
}
inline std::vector<Cylinder> cylinders() {
    return {Cylinder(5, 0, 10), Cylinder(5, 1, 10), Cylinder(5, 0, 12), Cylinder(4, 0, 10), Cylinder(Placement(Vector3D(0, 0, 1)), 5, 0, 10)};
}
inline std::vector<std::shared_ptr<LeptonDepthFunction>> depths() {
    std::vector<std::shared_ptr<LeptonDepthFunction>> r{nullptr};
    for (int i = 0; i < 7; ++i) {
        auto f = std::make_shared<LeptonDepthFunction>();
        if (i == 1) f->SetMuParams(1e-3, 2e-6); if (i == 2) f->SetMuParams(2e-3, 1e-6);
        if (i == 3) f->SetTauParams(1e3, 2e5); if (i == 4) f->SetTauParams(2e3, 1e5);
        if (i == 5) f->SetScale(2.5); if (i == 6) f->SetMaxDepth(1234);
        r.push_back(f);
    }
    return r;
}
inline std::vector<std::shared_ptr<DecayRangeFunction>> ranges() {
    std::vector<std::shared_ptr<DecayRangeFunction>> r{nullptr};
    for (double m : {0.1, 0.2}) for (double w : {1e-15, 2e-15}) for (double k : {2.0, 3.0}) for (double x : {100.0, 50.0}) r.push_back(std::make_shared<DecayRangeFunction>(m, w, k, x));
    return r;
}
inline std::vector<Entry> make() {
    std::vector<Entry> z;
    auto add = [&](std::string type, std::string par, std::shared_ptr<WeightableDistribution> d) { z.push_back({type + "(" + par + ")", type, d}); };
    for (double e : {1.0, 2.0, 0.5}) add("Monoenergetic", vc::cat(e), std::make_shared<Monoenergetic>(e));
    for (double g : {1.0, 2.0}) for (double a : {1.0, 2.0}) for (double b : {10.0, 20.0}) add("PowerLaw", vc::cat(g, ",", a, ",", b), std::make_shared<PowerLaw>(g, a, b));
    for (int k = 0; k < 8; ++k) {
        double p[7] = {0.5, 5, 1.5, 0.3, 1.0, 0.8, 0.4}; if (k) p[k - 1] *= 1.25;
        add("Moyal", vc::cat("change", k), std::make_shared<ModifiedMoyalPlusExponentialEnergyDistribution>(p[0], p[1], p[2], p[3], p[4], p[5], p[6]));
    }
    add("PiDAR", "", std::make_shared<PiDARNuEDistribution>());
    typedef std::vector<double> V;
    add("TabFlux", "a", std::make_shared<TabulatedFluxDistribution>(V{1, 2, 4, 8}, V{1, 3, 2, 1}));
    add("TabFlux", "b", std::make_shared<TabulatedFluxDistribution>(V{1, 2, 4, 8}, V{1, 3, 3, 1}));
    add("TabFlux", "c", std::make_shared<TabulatedFluxDistribution>(V{1, 2, 5, 8}, V{1, 3, 2, 1}));
    add("TabFlux", "a,bounds", std::make_shared<TabulatedFluxDistribution>(1.5, 6., V{1, 2, 4, 8}, V{1, 3, 2, 1}));
    add("TabFlux", "a,bounds2", std::make_shared<TabulatedFluxDistribution>(1.5, 7., V{1, 2, 4, 8}, V{1, 3, 2, 1}));
    V e2{1, 1, 1, 3, 3, 3}, c2{-1, 0, 1, -1, 0, 1}, f2{1, 2, 3, 3, 2, 1}, g2{1, 2, 3, 3, 2, 2};
    add("Tab2D", "a", std::make_shared<Tabulated2DFluxDistribution>(e2, c2, f2));
    add("Tab2D", "b", std::make_shared<Tabulated2DFluxDistribution>(e2, c2, g2));
    add("Tab2D", "a,e", std::make_shared<Tabulated2DFluxDistribution>(1.5, 2.5, e2, c2, f2));
    add("Tab2D", "a,ecz", std::make_shared<Tabulated2DFluxDistribution>(1.5, 2.5, -0.5, 0.5, e2, c2, f2));
    add("Tab2D", "a,ecz2", std::make_shared<Tabulated2DFluxDistribution>(1.5, 2.5, -0.5, 0.75, e2, c2, f2));
    Vector3D dirs[4] = {Vector3D(0, 0, 1), Vector3D(0, 0.6, 0.8), Vector3D(0, 0, -1), Vector3D(1, 0, 0)};
    for (int i = 0; i < 4; ++i) {
        add("FixedDirection", vc::cat(i), std::make_shared<FixedDirection>(dirs[i]));
        for (double a : {0.1, 0.2}) add("Cone", vc::cat(i, ",", a), std::make_shared<siren::distributions::Cone>(dirs[i], a));
    }
    add("Isotropic", "", std::make_shared<IsotropicDirection>());
    add("Helicity", "", std::make_shared<PrimaryNeutrinoHelicityDistribution>());
    for (double m : {0.0, 0.1, 0.2}) add("PrimaryMass", vc::cat(m), std::make_shared<PrimaryMass>(m));
    for (double n : {1.0, 2.0, 0.5}) add("NormalizationConstant", vc::cat(n), std::make_shared<NormalizationConstant>(n));
    for (int v = 0; v < 4; ++v) { add("External", vc::cat(v), std::make_shared<PrimaryExternalDistribution>(csv(v))); }
    add("External", "0,emin", std::make_shared<PrimaryExternalDistribution>(csv(0), 5.0));
    auto cyl = cylinders(); auto sh = shapes();
    for (size_t i = 0; i < cyl.size(); ++i) {
        add("CylinderVolume", vc::cat(i), std::make_shared<CylinderVolumePositionDistribution>(cyl[i]));
        add("FixedTargetArea", vc::cat(i), std::make_shared<FixedTargetAreaDistribution>(cyl[i]));
    }
    for (size_t i : {0, 3}) for (size_t s = 0; s < sh.size(); ++s) for (double m : {100.0, 200.0}) add("FixedTargetPosition", vc::cat(i, ",", s, ",", m), std::make_shared<FixedTargetPositionDistribution>(cyl[i], sh[s], m));
    for (int i = 0; i < 3; ++i) add("SphereVolume", vc::cat(i), std::make_shared<SphereVolumePositionDistribution>(i == 0 ? Sphere(5, 0) : i == 1 ? Sphere(5, 2) : Sphere(Placement(Vector3D(0, 1, 0)), 5, 0)));
    for (size_t s = 0; s < sh.size(); ++s) for (double m : {100.0, 200.0}) {
        add("PrimaryBounded", vc::cat(s, ",", m), std::make_shared<PrimaryBoundedVertexDistribution>(sh[s], m));
        add("SecondaryBounded", vc::cat(s, ",", m), std::make_shared<SecondaryBoundedVertexDistribution>(sh[s], m));
    }
    add("PrimaryPhysical", "", std::make_shared<PrimaryPhysicalVertexDistribution>());
    add("SecondaryPhysical", "", std::make_shared<SecondaryPhysicalVertexDistribution>());
    for (int i = 0; i < 4; ++i) for (double m : {10.0, 20.0}) add("PointSource", vc::cat(i, ",", m), std::make_shared<PointSourcePositionDistribution>(dirs[i], m));
    auto de = depths(); auto ra = ranges();
    for (double r : {10.0, 20.0}) for (double c : {5.0, 6.0}) {
        for (size_t i = 0; i < de.size(); ++i) add("ColumnDepth", vc::cat(r, ",", c, ",", i), std::make_shared<ColumnDepthPositionDistribution>(r, c, de[i]));
        for (size_t i = 0; i < ra.size(); i += (r > 15 ? 3 : 1)) {
            add("DecayRange", vc::cat(r, ",", c, ",", i), std::make_shared<DecayRangePositionDistribution>(r, c, ra[i]));
            if (i < 5) for (int t = 0; t < 3; ++t) {
                std::set<ParticleType> ts; if (t & 1) ts.insert(ParticleType::O16Nucleus); if (t) ts.insert(ParticleType::HNucleus);
                add("Range", vc::cat(r, ",", c, ",", i, ",", t), std::make_shared<RangePositionDistribution>(r, c, ra[i], ts));
            }
        }
    }
    return z;
}
}
