#pragma once
// shared by phys.cpp and phys2.cpp: elements with two unknowns and pairs of elements at a face
#include "elem.h"
#include "fam.h"
#include "Base/PhysicalElement.h"
#include "Base/PhysicalFace.h"
#include "Base/H1ConformingTransformation.h"
#include "Base/HCurlConformingTransformation.h"
#include "Base/HDivConformingTransformation.h"
using namespace shp;
using Base::PhysicalElement;
using Base::PhysicalFace;
using Base::Side;
typedef std::vector<std::shared_ptr<const FE::BasisFunctionSet>> Sets;
static const char* const SI[] = {"s0", "s1", "s2"};
static const char* const TI[] = {"t0", "t1", "t2"};
template <std::size_t D> static FE::BasisFunctionSet* monos(std::size_t order) {
    FE::BasisFunctionSet* b = new FE::BasisFunctionSet(order);
    if (D == 1) FE::assembleMonomialBasisFunctions1D(*b, order);
    if (D == 2) FE::assembleMonomialBasisFunctions2D(*b, order);
    if (D == 3) FE::assembleMonomialBasisFunctions3D(*b, order);
    return b;
}
// element with two unknowns: unknown 0 uses set a, unknown 1 uses set b
template <std::size_t D> struct E2 {
    Phys<D> table;
    std::vector<std::size_t> idx;
    std::unique_ptr<Base::Element> el;
    const FE::BasisFunctionSet* set[2];
    E2(int s, const Phys<D>& nodes, Sets* sets, std::size_t a, std::size_t b, std::size_t id, Base::Zone& zone, std::size_t first = 0) {
        table.resize(nodes.size() + first);
        for (std::size_t i = 0; i < nodes.size(); ++i) { idx.push_back(first + i); table[first + i] = nodes[i]; }
        el.reset(new Base::Element(idx, sets, table, 2, 1, id, zone));
        el->setDefaultBasisFunctionSet(a, 0);
        el->setDefaultBasisFunctionSet(b, 1);
        set[0] = (*sets)[a].get(); set[1] = (*sets)[b].get();
        el->setNumberOfTimeIntegrationVectors(2);
    }
    std::vector<double> fillSolution(const char* tag) {
        std::size_t n = el->getTotalNumberOfBasisFunctions();
        std::vector<double> c(n);
        LinearAlgebra::MiddleSizeVector& v = el->getTimeIntegrationVector(0);
        v.resize(n);
        for (std::size_t i = 0; i < n; ++i) { c[i] = hsx_real((std::string(tag) + std::to_string(i)).c_str(), -2, 2); v[i] = c[i]; }
        return c;
    }
};
template <std::size_t D> struct FacePair {
    Base::Zone zone{"zone", 0};
    std::unique_ptr<E2<D>> L, R;
    std::vector<std::unique_ptr<Base::Node>> nodes;
    std::unique_ptr<Base::Face> face;
    FacePair(int s, const Phys<D>& pl, const Phys<D>& pr, Sets* sets, std::size_t sw, std::size_t fL, std::size_t fR, const std::vector<std::size_t>& sym, bool shared) : FacePair(s, pl, pr, sets, {sw, 1 - sw, 1 - sw, sw}, fL, fR, sym, shared) {}
    // bases: of the first and second unknown on the left, then on the right
    FacePair(int s, const Phys<D>& pl, const Phys<D>& pr, Sets* sets, std::vector<std::size_t> b, std::size_t fL, std::size_t fR, const std::vector<std::size_t>& sym, bool shared) {
        auto ixL = geom(s)->getCodim1EntityLocalIndices(fL), ixR = geom(s)->getCodim1EntityLocalIndices(fR);
        std::size_t n = nNodes(s);
        L.reset(new E2<D>(s, pl, sets, b[0], b[1], 0, zone));
        R.reset(new E2<D>(s, pr, sets, b[2], b[3], 1, zone, shared ? 0 : n));
        std::vector<Base::Node*> nr(n, nullptr);
        for (std::size_t i = 0; i < n; ++i) { nodes.emplace_back(new Base::Node(i)); nodes.back()->addElement(L->el.get(), i); }
        for (std::size_t i = 0; i < ixR.size(); ++i) { nr[ixR[i]] = nodes[ixL[sym[i]]].get(); nr[ixR[i]]->addElement(R->el.get(), ixR[i]); }
        for (std::size_t i = 0; i < n; ++i) if (!nr[i]) { nodes.emplace_back(new Base::Node(n + i)); nodes.back()->addElement(R->el.get(), i); }
        face.reset(new Base::Face(L->el.get(), fL, R->el.get(), fR, 3));
    }
};
// right element: image of the left face under x -> R x + shift, then one symbolic further node
template <std::size_t D> static Phys<D> rightOf(int s, const Phys<D>& pl, std::size_t fL, std::size_t fR, const std::vector<std::size_t>& sym, const double (&rot)[D][D], const PointPhysical<D>& shift, const PointPhysical<D>& w) {
    auto ixL = geom(s)->getCodim1EntityLocalIndices(fL), ixR = geom(s)->getCodim1EntityLocalIndices(fR);
    auto fr = frame<D>(s, ixR);
    Phys<D> pos(D + 1);
    for (std::size_t i = 0; i < D; ++i) for (std::size_t k = 0; k < ixR.size(); ++k) if (ixR[k] == fr[i])
        for (std::size_t d = 0; d < D; ++d) { double v = shift[d]; for (std::size_t b = 0; b < D; ++b) v += rot[d][b] * pl[ixL[sym[k]]][b]; pos[i][d] = v; }
    pos[D] = w;
    return affineFrom<D>(s, fr, pos);
}
template <std::size_t D> static void checkFace(PhysicalFace<D>& pf, FacePair<D>& P, const std::vector<double>& cl, const std::vector<double>& cr, const PointReference<D - 1>& x, const double (&rot)[D][D], double tol) {
    const Base::Face& f = *P.face;
    PointReference<D> xl = f.mapRefFaceToRefElemL(x), xr = f.mapRefFaceToRefElemR(x);
    auto n = f.getNormalVector(x);
    Jacobian<D, D> JL = P.L->el->calcJacobian(xl), JR = P.R->el->calcJacobian(xr);
    double area = pf.getRelativeSurfaceArea(), n2 = 0;
    for (std::size_t d = 0; d < D; ++d) n2 += n[d] * n[d];
    hsx_assert(area > 0, "area element is positive");
    hsx_close(area * area, n2, tol, "area element is the length of the normal");
    PointPhysical<D> px = f.referenceToPhysical(x);
    for (std::size_t d = 0; d < D; ++d) {
        hsx_close(pf.getNormalVector()[d], n[d], tol, "normal");
        hsx_close(pf.getUnitNormalVector()[d] * area, n[d], tol, "unit normal is the scaled normal");
        hsx_close(pf.getPointPhysical()[d], px[d], tol, "physical point");
    }
    for (std::size_t u = 0; u < 2; ++u) {
        std::size_t nl = P.L->set[u]->size(), nr = P.R->set[u]->size();
        hsx_assert(pf.getNumberOfBasisFunctions(u) == nl + nr, "number of basis functions of both sides");
        double sl = 0, sr = 0;
        for (std::size_t i = 0; i < nl + nr; ++i) {
            bool left = i < nl;
            std::size_t k = left ? i : i - nl;
            double v = left ? P.L->set[u]->eval(k, xl) : P.R->set[u]->eval(k, xr);
            hsx_close(pf.basisFunction(i, u), v, tol, "value of the basis function of its side");
            hsx_close(pf.basisFunction(left ? Side::LEFT : Side::RIGHT, k, u), v, tol, "value by side");
            for (std::size_t d = 0; d < D; ++d) {
                hsx_close(pf.basisFunctionNormal(i, u)[d], (left ? 1 : -1) * n[d] * v, tol, "normal times value, outward of each side");
                hsx_close(pf.basisFunctionUnitNormal(i, u)[d] * area, (left ? 1 : -1) * n[d] * v, tol, "unit normal times value, outward of each side");
                hsx_close(pf.basisFunctionNormal(left ? Side::LEFT : Side::RIGHT, k, u)[d], (left ? 1 : -1) * n[d] * v, tol, "normal times value by side");
            }
            // gradient: chain rule; the gradient of the right side is turned back to the left frame (g = R^T g_right)
            for (std::size_t a = 0; a < D; ++a) {
                double g = 0;
                for (std::size_t d = 0; d < D; ++d) {
                    double gd = pf.basisFunctionDeriv(i, u)[d];
                    if (!left) { gd = 0; for (std::size_t b = 0; b < D; ++b) gd += rot[d][b] * pf.basisFunctionDeriv(i, u)[b]; }
                    g += (left ? JL(d, a) : JR(d, a)) * gd;
                }
                hsx_close(g, left ? P.L->set[u]->evalDeriv(k, a, xl) : P.R->set[u]->evalDeriv(k, a, xr), tol, "gradient of the basis function of its side");
            }
            (left ? sl : sr) += (left ? cl : cr)[(u ? (left ? P.L : P.R)->set[0]->size() : 0) + k] * v;
        }
    }
}
