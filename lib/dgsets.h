// The basis function sets a shape gets, made apart from any mesh.
#ifndef VERIF_DGSETS_H
#define VERIF_DGSETS_H
#include "refel.h"
#include "FE/BasisFunctionSet.h"
#include "FE/BasisFunctions1DH1ConformingLine.h"
#include "FE/BasisFunctions2DH1ConformingSquare.h"
#include "FE/BasisFunctions2DH1ConformingTriangle.h"
#include "FE/BasisFunctions2DNedelec.h"
#include "FE/BasisFunctions3DAinsworthCoyle.h"
#include "FE/BasisFunctions3DH1ConformingCube.h"
#include "FE/BasisFunctions3DH1ConformingPrism.h"
#include "FE/BasisFunctions3DH1ConformingPyramid.h"
#include "FE/BasisFunctions3DH1ConformingTetrahedron.h"
#include "FE/BasisFunctions3DNedelec.h"
#include <memory>
namespace dgsets {
using Set = std::shared_ptr<hpgem::FE::BasisFunctionSet>;
inline Set make(refel::Shape sh, std::size_t p) {
    using namespace hpgem::FE;
    switch (sh) {
        case refel::LINE: return Set(createDGBasisFunctionSet1DH1Line(p));
        case refel::TRIANGLE: return Set(createDGBasisFunctionSet2DH1Triangle(p));
        case refel::SQUARE: return Set(createDGBasisFunctionSet2DH1Square(p));
        case refel::TET: return Set(createDGBasisFunctionSet3DH1Tetrahedron(p));
        case refel::CUBE: return Set(createDGBasisFunctionSet3DH1Cube(p));
        case refel::PRISM: return Set(createDGBasisFunctionSet3DH1ConformingPrism(p));
        default: return Set(createDGBasisFunctionSet3DH1ConformingPyramid(p));
    }
}
/// kept for the whole process: the rules of the library remember values by set
inline Set dg(refel::Shape sh, std::size_t p) {
    static std::map<std::pair<int, std::size_t>, Set> all;
    auto& r = all[{(int)sh, p}];
    if (!r) r = make(sh, p);
    return r;
}
inline Set vectorSet(refel::Shape sh, std::size_t p, bool ainsworth) {
    using namespace hpgem::FE;
    static std::map<std::tuple<int, std::size_t, bool>, Set> all;
    auto& r = all[std::make_tuple((int)sh, p, ainsworth)];
    if (!r) {
        if (sh == refel::TRIANGLE)
            r.reset(createDGBasisFunctionSet2DNedelec(p));
        else
            r.reset(ainsworth ? createDGBasisFunctionSet3DAinsworthCoyle(p) : createDGBasisFunctionSet3DNedelec(p));
    }
    return r;
}
}  // namespace dgsets
#endif
