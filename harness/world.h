// A small detector and interaction collection shared by harnesses.
#pragma once
#include <memory>
#include "SIREN/detector/DetectorModel.h"
#include "SIREN/detector/MaterialModel.h"
#include "SIREN/detector/CartesianAxis1D.h"
#include "SIREN/detector/RadialAxis1D.h"
#include "SIREN/detector/ConstantDensityDistribution.h"
#include "SIREN/geometry/Sphere.h"
#include "SIREN/geometry/Box.h"
#include "SIREN/geometry/Cylinder.h"
#include "SIREN/interactions/InteractionCollection.h"
#include "SIREN/interactions/DummyCrossSection.h"
#include "SIREN/utilities/Random.h"
namespace world {
using namespace siren;
using math::Vector3D; using dataclasses::ParticleType;
inline detector::DetectorSector sector(std::string n, int mat, int level, std::shared_ptr<geometry::Geometry const> g, double rho) {
    detector::DetectorSector s; s.name = n; s.material_id = mat; s.level = level;
    s.geo = std::const_pointer_cast<geometry::Geometry>(g);
    s.density = std::make_shared<detector::DensityDistribution1D<detector::CartesianAxis1D, detector::ConstantDistribution1D>>(rho);
    return s;
}
inline detector::MaterialModel materials() {
    detector::MaterialModel m;
    m.AddMaterial("WATER", {{1000010010, 0.1119}, {1000080160, 0.8881}});
    m.AddMaterial("ROCK", {{1000140280, 0.5}, {1000080160, 0.5}});
    return m;
}
inline std::shared_ptr<detector::DetectorModel> model() {
    auto d = std::make_shared<detector::DetectorModel>();
    detector::MaterialModel m = materials(); d->SetMaterials(m);
    d->ClearSectors();
    d->AddSector(sector("rock", m.GetMaterialId("ROCK"), 0, std::make_shared<geometry::Sphere>(2000.0, 0.0), 2.5));
    d->AddSector(sector("water", m.GetMaterialId("WATER"), 1, std::make_shared<geometry::Sphere>(800.0, 0.0), 1.0));
    return d;
}
inline std::shared_ptr<interactions::InteractionCollection> collection(ParticleType p = ParticleType::NuMu) {
    std::vector<std::shared_ptr<interactions::CrossSection>> xs{std::make_shared<interactions::DummyCrossSection>()};
    return std::make_shared<interactions::InteractionCollection>(p, xs);
}
}
