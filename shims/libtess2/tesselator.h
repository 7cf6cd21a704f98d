#pragma once
typedef float TESSreal; typedef int TESSindex; typedef struct TESStesselator TESStesselator; typedef struct TESSalloc TESSalloc;
#define TESS_UNDEF (~(TESSindex)0)
enum TessWindingRule { TESS_WINDING_ODD, TESS_WINDING_NONZERO, TESS_WINDING_POSITIVE, TESS_WINDING_NEGATIVE, TESS_WINDING_ABS_GEQ_TWO };
enum TessElementType { TESS_POLYGONS, TESS_CONNECTED_POLYGONS, TESS_BOUNDARY_CONTOURS };
extern "C" { TESStesselator* tessNewTess(TESSalloc*); void tessDeleteTess(TESStesselator*); void tessAddContour(TESStesselator*, int size, const void* p, int stride, int count); int tessTesselate(TESStesselator*, int winding, int elementType, int polySize, int vertexSize, const TESSreal* normal); int tessGetVertexCount(TESStesselator*); const TESSreal* tessGetVertices(TESStesselator*); const TESSindex* tessGetVertexIndices(TESStesselator*); int tessGetElementCount(TESStesselator*); const TESSindex* tessGetElements(TESStesselator*); }
