// A generated mesh, read by the library.
#ifndef VERIF_LOADED_H
#define VERIF_LOADED_H
#include "hp.h"
#include "meshgen.h"
#include "Base/CommandLineOptions.h"
#include "Integration/QuadratureRules/AllGaussQuadratureRules.h"
#include "Base/ConfigurationData.h"
#include "Base/MeshManipulator.h"
#include "Base/Element.h"
#include "Base/Face.h"
#include "Base/Edge.h"
#include "Base/Node.h"
#include "Base/Zone.h"

namespace hp {
using namespace hpgem;
/// MPI, PETSc and the replaced logger
inline void startLibrary() {
    installLogger();
    static char name[] = "check", *args[] = {name, nullptr};
    int argc = 1;
    char** argv = args;
    Base::parse_options(argc, argv);
}
template <std::size_t D>
struct Loaded {
    Base::ConfigurationData config;
    Base::MeshManipulator<D> mesh;
    std::vector<Base::Element*> elems;
    std::vector<Base::Face*> faces;
    std::map<const Base::Element*, std::size_t> number;
    Loaded(const meshgen::Model& m, std::size_t unknowns = 1, std::size_t levels = 1, bool hex = true,
           std::size_t em = 0, std::size_t ev = 0, std::size_t fm = 0, std::size_t fv = 0)
        : config(unknowns, levels), mesh(&config, em, ev, fm, fv) {
        std::string path = meshgen::scratch("mesh") + ".hpgem";
        meshgen::write(m, path, hex);
        try {
            mesh.readMesh(path);
        } catch (...) {
            std::remove(path.c_str());
            throw;
        }
        std::remove(path.c_str());
        for (Base::Element* e : mesh.getElementsList()) {
            number[e] = elems.size();
            elems.push_back(e);
        }
        for (Base::Face* f : mesh.getFacesList()) faces.push_back(f);
    }
};
/// the highest order (at most p) for which every shape of the mesh has a quadrature rule
inline std::size_t usableOrder(const meshgen::Model& m, std::size_t p) {
    for (; p > 1; --p) {
        bool ok = true;
        for (auto& e : m.elems)
            if (isFatal([&] { QuadratureRules::AllGaussQuadratureRules::instance().getRule(&refel::geometry(e.shape), 2 * p + 1); })) ok = false;
        if (ok) break;
    }
    return p;
}
template <std::size_t D>
Geometry::PointReference<D> pr(const std::vector<double>& p) {
    return refel::pr<D>(p);
}
template <class P>
std::vector<double> vec(const P& p, std::size_t d) {
    std::vector<double> r(d);
    for (std::size_t i = 0; i < d; ++i) r[i] = p[i];
    return r;
}
}  // namespace hp
#endif
