#pragma once
#define ELEMS_SEG X(Seg1L, Segment<1, Linear>) X(Seg2L, Segment<2, Linear>) X(Seg3L, Segment<3, Linear>) \
                  X(Seg1Q, Segment<1, Quadratic>) X(Seg2Q, Segment<2, Quadratic>) X(Seg3Q, Segment<3, Quadratic>)
#define ELEMS_TRI X(Tri2L, Triangle<2, Linear>) X(Tri3L, Triangle<3, Linear>) X(Tri2Q, Triangle<2, Quadratic>) X(Tri3Q, Triangle<3, Quadratic>)
#define ELEMS_QUAD X(Quad2L, Quad<2, Linear>) X(Quad3L, Quad<3, Linear>) X(Quad2Q, Quad<2, Quadratic>) X(Quad3Q, Quad<3, Quadratic>)
#define ELEMS_TET X(TetL, Tetrahedron<Linear>) X(TetQ, Tetrahedron<Quadratic>)
#define ELEMS_HEX X(HexL, Hexahedron<Linear>) X(HexQ, Hexahedron<Quadratic>)
#define ELEMS_RQUAD X(RQuad2L, RectangularQuad<2, Linear>) X(RQuad3L, RectangularQuad<3, Linear>) X(RQuad2Q, RectangularQuad<2, Quadratic>) X(RQuad3Q, RectangularQuad<3, Quadratic>)
#define ELEMS_RHEX X(RHexL, RectangularHexahedron<Linear>) X(RHexQ, RectangularHexahedron<Quadratic>)
#if defined(PART) && PART == 1
#define ELEMS ELEMS_SEG
#elif defined(PART) && PART == 2
#define ELEMS ELEMS_TRI
#elif defined(PART) && PART == 3
#define ELEMS ELEMS_QUAD
#elif defined(PART) && PART == 4
#define ELEMS ELEMS_TET
#elif defined(PART) && PART == 5
#define ELEMS ELEMS_HEX
#elif defined(PART) && PART == 6
#define ELEMS ELEMS_RQUAD
#elif defined(PART) && PART == 7
#define ELEMS ELEMS_RHEX
#else
#define ELEMS ELEMS_SEG ELEMS_TRI ELEMS_QUAD ELEMS_TET ELEMS_HEX ELEMS_RQUAD ELEMS_RHEX
#endif
