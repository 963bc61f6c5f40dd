// conformity, nodality and completeness of the H1 bases
#include "fam.h"
#include "Geometry/Mappings/MappingReferenceToReference.h"
#include <algorithm>
using namespace fam;
static int faceShape(int s, std::size_t f) {
    switch (geom(s)->getCodim1ReferenceGeometry(f)->getGeometryType()) {
        case ReferenceGeometryType::POINT: return POINT;
        case ReferenceGeometryType::LINE: return LINE;
        case ReferenceGeometryType::TRIANGLE: return TRIANGLE;
        default: return SQUARE;
    }
}
static std::size_t nOrient(int fs) { return fs == POINT ? 1 : fs == LINE ? 2 : fs == TRIANGLE ? 6 : 8; }
static bool has(const std::vector<std::size_t>& v, std::size_t x) { return std::find(v.begin(), v.end(), x) != v.end(); }
template <std::size_t D> static void zero(const BasisFunctionSet* s, const PointReference<D>& p, const char* m) {
    for (std::size_t i = 0; i < s->size(); ++i) hsx_close(s->eval(i, p), 0, 1e-9, m);
}
// functions attached to an entity vanish on every face that does not contain the entity
template <std::size_t D> static void traces(int s, std::size_t hi) {
    std::size_t order = 1 + hsx_choice("order", hi);
    const ReferenceGeometry* g = geom(s);
    std::size_t f = hsx_choice("face", g->getNumberOfCodim1Entities());
    int fs = faceShape(s, f);
    PointReference<D - 1> fp = symPoint<D - 1>(fs, XI, 0);
    if (s == PYRAMID) {  // the rational functions are singular at the apex only
        PointReference<D> q = g->getCodim1MappingPtr(f)->transform(fp);
        hsx_assume(q[D - 1] <= 0.99);
    }
    PointReference<D> p = g->getCodim1MappingPtr(f)->transform(fp);
    auto fn = g->getCodim1EntityLocalIndices(f);
    zero<D>(interior(s, order), p, "interior basis function vanishes on the element boundary");
    Sets vs = vertex(s, order);
    hsx_assert(vs.size() >= g->getNumberOfNodes(), "one set per vertex");
    double sum = 0;
    for (std::size_t v = 0; v < g->getNumberOfNodes(); ++v) {
        if (!has(fn, v)) zero<D>(vs[v], p, "vertex basis function vanishes on faces without the vertex");
        for (std::size_t i = 0; i < vs[v]->size(); ++i) sum += vs[v]->eval(i, p);
    }
    hsx_close(sum, 1, 1e-9, "vertex basis functions sum to one");
    if (D == 3) {
        OSets es = edge(s, order);
        for (std::size_t e = 0; e < g->getNumberOfCodim2Entities(); ++e) {
            auto en = g->getCodim2EntityLocalIndices(e);
            for (std::size_t o = 0; o < 2; ++o) {
                auto* x = pick(es, o, e);
                hsx_assert(x != nullptr, "edge set exists for both orientations");
                if (!(has(fn, en[0]) && has(fn, en[1]))) zero<D>(x, p, "edge basis function vanishes on faces without the edge");
            }
        }
    }
    if (D > 1) {
        OSets fsx = face(s, order);
        for (std::size_t k = 0; k < g->getNumberOfCodim1Entities(); ++k)
            for (std::size_t o = 0; o < nOrient(faceShape(s, k)); ++o) {
                auto* x = pick(fsx, o, k);
                if (x == nullptr && order == 1) continue;
                hsx_assert(x != nullptr, "face set exists for every orientation");
                if (k != f) zero<D>(x, p, "face basis function vanishes on the other faces");
            }
    }
    hsx_reach("end");
}
HSX_CASE(trace_line) { traces<1>(LINE, 5); }
HSX_CASE(trace_triangle) { traces<2>(TRIANGLE, 5); }
HSX_CASE(trace_square) { traces<2>(SQUARE, 5); }
HSX_CASE(trace_tetrahedron) { traces<3>(TETRAHEDRON, 5); }
HSX_CASE(trace_cube) { traces<3>(CUBE, 4); }
HSX_CASE(trace_prism) { traces<3>(PRISM, 5); }
HSX_CASE(trace_pyramid) { traces<3>(PYRAMID, 1); }
// the trace on a shared face is the same from both elements: left face with orientation 0, right face with any orientation
template <std::size_t D> static void match(int sl, std::size_t fl, int sr, std::size_t fr, std::size_t o, std::size_t order) {
    const ReferenceGeometry *gl = geom(sl), *gr = geom(sr);
    int fs = faceShape(sl, fl);
    PointReference<D - 1> fp = symPoint<D - 1>(fs, XI, 0);
    PointReference<D> pl = gl->getCodim1MappingPtr(fl)->transform(fp);
    PointReference<D> pr = gr->getCodim1MappingPtr(fr)->transform(geom(fs)->getCodim0MappingPtr(o)->transform(fp));
    if (sl == PYRAMID) hsx_assume(pl[D - 1] <= 0.99);
    if (sr == PYRAMID) hsx_assume(pr[D - 1] <= 0.99);
    // vertex correspondence: face vertex k of the left face lies on right local node rn[k]
    auto ln = gl->getCodim1EntityLocalIndices(fl), rn0 = gr->getCodim1EntityLocalIndices(fr);
    std::vector<std::size_t> rn(ln.size(), 99);
    for (std::size_t k = 0; k < ln.size(); ++k) {
        const PointReference<D - 1>& c = geom(fs)->getReferenceNodeCoordinate(k);
        PointReference<D - 1> d = geom(fs)->getCodim0MappingPtr(o)->transform(c);
        for (std::size_t m = 0; m < ln.size(); ++m) {
            const PointReference<D - 1>& c2 = geom(fs)->getReferenceNodeCoordinate(m);
            double dist = 0;
            for (std::size_t q = 0; q + 1 < D; ++q) dist += std::fabs(c2[q] - d[q]);
            if (dist < 1e-9) rn[k] = rn0[m];
        }
        hsx_assert(rn[k] != 99, "face to face mapping maps nodes to nodes");
    }
    Sets vl = vertex(sl, order), vr = vertex(sr, order);
    for (std::size_t k = 0; k < ln.size(); ++k)
        for (std::size_t i = 0; i < vl[ln[k]]->size(); ++i)
            hsx_close(vl[ln[k]]->eval(i, pl), vr[rn[k]]->eval(i, pr), 1e-9, "vertex function continuous across the face");
    if (D == 3) {
        OSets el = edge(sl, order), er = edge(sr, order);
        for (std::size_t e = 0; e < gl->getNumberOfCodim2Entities(); ++e) {
            auto en = gl->getCodim2EntityLocalIndices(e);
            std::size_t a = std::find(ln.begin(), ln.end(), en[0]) - ln.begin(), b = std::find(ln.begin(), ln.end(), en[1]) - ln.begin();
            if (a == ln.size() || b == ln.size()) continue;
            for (std::size_t e2 = 0; e2 < gr->getNumberOfCodim2Entities(); ++e2) {
                auto rn2 = gr->getCodim2EntityLocalIndices(e2);
                bool same = rn2[0] == rn[a] && rn2[1] == rn[b], rev = rn2[0] == rn[b] && rn2[1] == rn[a];
                if (!same && !rev) continue;
                auto *x = pick(el, 0, e), *y = pick(er, rev ? 1 : 0, e2);
                hsx_assert(x && y && x->size() == y->size(), "matching edges carry equally many functions");
                for (std::size_t i = 0; i < x->size(); ++i) hsx_close(x->eval(i, pl), y->eval(i, pr), 1e-9, "edge function continuous across the face");
            }
        }
    }
    if (D > 1) {
        auto *x = pick(face(sl, order), 0, fl), *y = pick(face(sr, order), o, fr);
        std::size_t nx = x ? x->size() : 0, ny = y ? y->size() : 0;
        hsx_assert(nx == ny, "both sides of a face carry equally many face functions");
        for (std::size_t i = 0; i < nx; ++i) hsx_close(x->eval(i, pl), y->eval(i, pr), 1e-9, "face function continuous across the face");
    }
    hsx_reach("end");
}
// every face of every shape, in every orientation, against one fixed face of the same kind
template <std::size_t D> static void cont(int s, int ref, std::size_t lo, std::size_t hi) {
    std::size_t order = lo + hsx_choice("order", hi - lo + 1);
    std::size_t f = hsx_choice("face", geom(s)->getNumberOfCodim1Entities());
    int fs = faceShape(s, f);
    if (fs != faceShape(ref, 0)) { hsx_end(); }
    std::size_t o = hsx_choice("orientation", nOrient(fs));
    match<D>(ref, 0, s, f, o, order);
}
HSX_CASE(cont_triangle) { cont<2>(TRIANGLE, TRIANGLE, 1, 5); }
HSX_CASE(cont_square_triangle) { cont<2>(SQUARE, TRIANGLE, 1, 5); }
HSX_CASE(cont_square) { cont<2>(SQUARE, SQUARE, 1, 5); }
HSX_CASE(cont_tetrahedron) { cont<3>(TETRAHEDRON, TETRAHEDRON, 1, 5); }
HSX_CASE(cont_cube) { cont<3>(CUBE, CUBE, 1, 4); }
HSX_CASE(cont_prism_triangles) { cont<3>(PRISM, TETRAHEDRON, 1, 5); }
HSX_CASE(cont_prism_squares) { cont<3>(PRISM, CUBE, 1, 4); }
HSX_CASE(cont_pyramid_triangles) { cont<3>(PYRAMID, TETRAHEDRON, 1, 1); }
HSX_CASE(cont_pyramid_square) { cont<3>(PYRAMID, CUBE, 1, 1); }
// vertex functions take the value one in their own node
template <std::size_t D> static void nodal(int s, std::size_t hi) {
    std::size_t order = 1 + hsx_choice("order", hi);
    const ReferenceGeometry* g = geom(s);
    Sets vs = vertex(s, order);
    for (std::size_t v = 0; v < g->getNumberOfNodes(); ++v)
        for (std::size_t w = 0; w < g->getNumberOfNodes(); ++w) {
            const PointReference<D>& p = g->getReferenceNodeCoordinate(w);
            if (s == PYRAMID && w == 0) continue;
            hsx_close(vs[v]->eval(0, p), v == w ? 1 : 0, 1e-9, "vertex function is one in its node and zero in the others");
        }
    hsx_reach("end");
}
HSX_CASE(nodal_line) { nodal<1>(LINE, 3); }
HSX_CASE(nodal_triangle) { nodal<2>(TRIANGLE, 3); }
HSX_CASE(nodal_square) { nodal<2>(SQUARE, 3); }
HSX_CASE(nodal_tetrahedron) { nodal<3>(TETRAHEDRON, 3); }
HSX_CASE(nodal_cube) { nodal<3>(CUBE, 3); }
HSX_CASE(nodal_prism) { nodal<3>(PRISM, 3); }
HSX_CASE(nodal_pyramid) { nodal<3>(PYRAMID, 1); }
// completeness: the DG set has the dimension of the polynomial space and its functions are linearly independent
template <std::size_t D> static void complete(int s, std::size_t lo, std::size_t hi) {
    std::size_t order = lo + hsx_choice("order", hi - lo + 1);
    BasisFunctionSet* set = dg(s, order);
    std::size_t p = order, n = 0;
    switch (s) {
        case LINE: n = p + 1; break;
        case TRIANGLE: n = (p + 1) * (p + 2) / 2; break;
        case SQUARE: n = (p + 1) * (p + 1); break;
        case TETRAHEDRON: n = (p + 1) * (p + 2) * (p + 3) / 6; break;
        case CUBE: n = (p + 1) * (p + 1) * (p + 1); break;
        case PRISM: n = (p + 1) * (p + 1) * (p + 2) / 2; break;
        case PYRAMID: n = p ? 5 : 1; break;
    }
    hsx_assert(set->size() == n, "number of basis functions equals the dimension of the space");
    std::vector<double> c(n);
    for (std::size_t i = 0; i < n; ++i) c[i] = hsx_real("c", -1, 1);
    // sample points: the equispaced lattice of the shape is unisolvent
    int P = (int)p;
    if (P == 0) P = 1;
    int cnt[3] = {0, 0, 0};
    auto sample = [&](double x, double y, double z) {
        PointReference<D> q;
        double xx[3] = {x, y, z};
        for (std::size_t d = 0; d < D; ++d) q[d] = xx[d];
        double v = 0;
        // values rounded to 2^-14: |sum c_i phi_i| = 0 with |c_i| <= 1 implies |sum c_i round(phi_i)| <= n 2^-15
        for (std::size_t i = 0; i < n; ++i) v += c[i] * (std::floor(set->eval(i, q) * 16384 + 0.5) / 16384);
        double tol = n / 32768. + 1e-9;
        hsx_assume((v <= tol) & (v >= -tol));
    };
    for (int i = 0; i <= P; ++i)
        for (int j = 0; j <= (D > 1 ? P : 0); ++j)
            for (int k = 0; k <= (D > 2 ? P : 0); ++k) {
                double u = double(i) / P, v = double(j) / P, w = double(k) / P;
                if ((s == TRIANGLE || s == TETRAHEDRON) && i + j + k > P) continue;
                if (s == PRISM && i + j > P) continue;
                if (s == PYRAMID) { if (k == 0) sample(2 * u - 1, 2 * v - 1, 0); else if (k == P && i == 0 && j == 0) sample(0, 0, 0.75); continue; }
                if (s == LINE || s == SQUARE || s == CUBE) sample(2 * u - 1, 2 * v - 1, 2 * w - 1);
                else if (s == PRISM) sample(u, v, 2 * w - 1);
                else sample(u, v, w);
            }
    for (std::size_t i = 0; i < n; ++i) hsx_close(c[i], 0, 0.5, "basis functions are linearly independent");
    hsx_reach("end");
}
HSX_CASE(complete_line) { complete<1>(LINE, 0, 6); }
HSX_CASE(complete_line7) { complete<1>(LINE, 7, 7); }
HSX_CASE(complete_triangle) { complete<2>(TRIANGLE, 0, 4); }
HSX_CASE(complete_square) { complete<2>(SQUARE, 0, 3); }
HSX_CASE(complete_tetrahedron) { complete<3>(TETRAHEDRON, 0, 4); }
HSX_CASE(complete_cube) { complete<3>(CUBE, 0, 2); }
HSX_CASE(complete_prism) { complete<3>(PRISM, 0, 2); }
HSX_CASE(complete_prism3) { complete<3>(PRISM, 3, 3); }
HSX_CASE(complete_pyramid) { complete<3>(PYRAMID, 0, 1); }
