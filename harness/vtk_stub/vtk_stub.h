// Stand-in for the classes of VTK that VTKReader.cpp uses: an unstructured grid held in memory.  As in VTK, GetPoint and
// GetCell return an object that the next call overwrites, types are listed in order of first appearance and the cells of a
// type in order of their index.
#pragma once
#include <vector>
#include <string>
typedef long long vtkIdType;
typedef enum { VTK_EMPTY_CELL = 0, VTK_VERTEX = 1, VTK_LINE = 3, VTK_TRIANGLE = 5, VTK_QUAD = 9, VTK_TETRA = 10, VTK_HEXAHEDRON = 12, VTK_WEDGE = 13, VTK_QUADRATIC_EDGE = 21, VTK_QUADRATIC_TRIANGLE = 22, VTK_QUADRATIC_QUAD = 23, VTK_QUADRATIC_TETRA = 24, VTK_QUADRATIC_HEXAHEDRON = 25 } VTKCellType;
template <class T> struct vtkSmartPointer { T * p = nullptr; vtkSmartPointer() {} vtkSmartPointer(T * q) : p(q) {} static vtkSmartPointer New() { return vtkSmartPointer(new T()); } T * operator->() const { return p; } operator T *() const { return p; } T * Get() const { return p; } T * GetPointer() const { return p; } };
struct vtkIdTypeArray { std::vector<vtkIdType> v; vtkIdType GetDataSize() const { return (vtkIdType) v.size(); } vtkIdType GetNumberOfTuples() const { return (vtkIdType) v.size(); } vtkIdType GetNumberOfValues() const { return (vtkIdType) v.size(); } vtkIdType GetSize() const { return (vtkIdType) v.size(); } vtkIdType GetValue(vtkIdType i) const { return v[i]; } };
struct vtkIdList { const vtkIdType * ids; vtkIdType n; vtkIdType GetNumberOfIds() const { return n; } vtkIdType GetId(vtkIdType k) const { return ids[k]; } };
struct vtkCell { const vtkIdType * ids; vtkIdType n; vtkIdList list; vtkIdList * GetPointIds() { list.ids = ids; list.n = n; return &list; } vtkIdType GetNumberOfPoints() const { return n; } vtkIdType GetPointId(int k) const { return ids[k]; } };
struct vtkCellTypes { std::vector<unsigned char> v; int GetNumberOfTypes() const { return (int) v.size(); } unsigned char GetCellType(int i) const { return v[i]; } static const char * GetClassNameFromTypeId(int) { return ""; } };
struct vtkPoints { const double * x; vtkIdType n; double out[3]; double * GetPoint(vtkIdType i) { for (int k = 0; k < 3; ++k) out[k] = x[3 * i + k]; return out; } void GetPoint(vtkIdType i, double * o) const { for (int k = 0; k < 3; ++k) o[k] = x[3 * i + k]; } vtkIdType GetNumberOfPoints() const { return n; } };
struct vtkArray { int GetDataType() const { return 0; } const char * GetDataTypeAsString() const { return ""; } };
struct vtkFieldData { int GetNumberOfArrays() const { return 0; } vtkArray * GetArray(int) const { return nullptr; } const char * GetArrayName(int) const { return ""; } };
using vtkCellData = vtkFieldData; using vtkPointData = vtkFieldData;
struct vtkUnstructuredGrid {
    vtkPoints points; std::vector<vtkCell> cells; std::vector<unsigned char> types; vtkCell out; vtkFieldData data;
    vtkPoints * GetPoints() { return &points; } vtkIdType GetNumberOfPoints() const { return points.n; } vtkIdType GetNumberOfCells() const { return (vtkIdType) cells.size(); } double * GetPoint(vtkIdType i) { return points.GetPoint(i); }
    int GetCellType(vtkIdType i) const { return types[i]; } vtkCell * GetCell(vtkIdType i) { out = cells[i]; return &out; }
    void GetCellTypes(vtkCellTypes * t) const { t->v.clear(); for (auto x : types) { bool f = false; for (auto y : t->v) f = f || x == y; if (!f) t->v.push_back(x); } }
    void GetIdsOfCellsOfType(int t, vtkIdTypeArray * a) const { a->v.clear(); for (std::size_t i = 0; i < types.size(); ++i) if (types[i] == t) a->v.push_back((vtkIdType) i); }
    vtkFieldData * GetCellData() { return &data; } vtkFieldData * GetPointData() { return &data; } vtkFieldData * GetFieldData() { return &data; }
};
inline vtkUnstructuredGrid * vtk_file = nullptr;   // what the file holds
struct vtkUnstructuredGridReader { vtkUnstructuredGrid grid; bool named = false; void SetFileName(const char * f) { named = f != nullptr; } void Update() { if (named && vtk_file) grid = *vtk_file; } vtkUnstructuredGrid * GetOutput() { return &grid; } };
