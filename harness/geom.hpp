// Harness wrappers: flat buffers in, flat buffers out.  They contain no logic of their own beyond
// copying between the buffers and the real caribou types.
#pragma once
extern "C" { extern int vh_threw; int vh_threw = 0; }
#include <Caribou/Geometry/Segment.h>
#include <Caribou/Geometry/Triangle.h>
#include <Caribou/Geometry/Quad.h>
#include <Caribou/Geometry/Tetrahedron.h>
#include <Caribou/Geometry/Hexahedron.h>
#include <Caribou/Geometry/RectangularQuad.h>
#include <Caribou/Geometry/RectangularHexahedron.h>
#include <new>
namespace vh {
using namespace caribou;
using namespace caribou::geometry;
typedef long long ll;

template <class E> using NodesM = Eigen::Matrix<double, E::NumberOfNodesAtCompileTime, E::Dimension>;

template <class E> NodesM<E> rd_nodes(const double * n) {
    NodesM<E> N;
    for (int i = 0; i < N.rows(); ++i) for (int j = 0; j < N.cols(); ++j) N(i, j) = n[i * N.cols() + j];
    return N;
}
template <class V> V rd_vec(const double * x) { V v; for (int i = 0; i < v.size(); ++i) v[i] = x[i]; return v; }
template <class M> M rd_mat(const double * x) { M m; for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) m(i, j) = x[i * m.cols() + j]; return m; }
template <class V> void wr(const V & v, double * o) { for (int i = 0; i < v.rows(); ++i) for (int j = 0; j < v.cols(); ++j) o[i * v.cols() + j] = v(i, j); }

// construction of an element from the harness buffer: node table for general elements,
// {center, size, rotation (row major)} for rectangular ones
template <class E> struct Make { static E of(const double * n) { return E(rd_nodes<E>(n)); } };
template <UNSIGNED_INTEGER_TYPE D, UNSIGNED_INTEGER_TYPE O> struct Make<RectangularQuad<D, O>> {
    using E = RectangularQuad<D, O>;
    static E of(const double * n) {
        return E(rd_vec<typename E::WorldCoordinates>(n), rd_vec<typename E::Size>(n + D), rd_mat<typename E::Rotation>(n + D + 2));
    }
};
template <UNSIGNED_INTEGER_TYPE O> struct Make<RectangularHexahedron<O>> {
    using E = RectangularHexahedron<O>;
    static E of(const double * n) {
        return E(rd_vec<typename E::WorldCoordinates>(n), rd_vec<typename E::Size>(n + 3), rd_mat<typename E::Rotation>(n + 6));
    }
};
}
