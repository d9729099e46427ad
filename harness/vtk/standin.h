// Stand-ins for the classes of VTK that the writers use, which is not installed here: they keep what they are given, and
// record what would be written to which file.
#pragma once
#include <array>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#define VTK_MAJOR_VERSION 9
namespace standin {
struct Misuse : std::runtime_error {
    using std::runtime_error::runtime_error;
};
inline void demand(bool ok, const std::string & what)
{
    if (!ok) throw Misuse("misuse of VTK: " + what);
}
}
// what VTK counts references to
struct vtkObject : std::enable_shared_from_this<vtkObject> {
    virtual ~vtkObject() = default;
    void Delete();
    void UnRegister(vtkObject *) { Delete(); }
    void Modified() {}
};
using vtkObjectBase = vtkObject;
namespace standin {
// those that were created without a smart pointer, and not deleted
inline std::map<vtkObject *, std::shared_ptr<vtkObject>> raw;
template <class T> T * create()
{
    auto p = std::make_shared<T>();
    raw[p.get()] = p;
    return p.get();
}
template <class T> std::shared_ptr<T> share(T * p) { return p ? std::static_pointer_cast<T>(p->shared_from_this()) : nullptr; }
}
inline void vtkObject::Delete() { standin::raw.erase(this); }
template <class T> class vtkSmartPointer {
    std::shared_ptr<T> _p;
    template <class> friend class vtkSmartPointer;

  public:
    vtkSmartPointer() = default;
    vtkSmartPointer(T * p) : _p(standin::share(p)) {}
    template <class S> vtkSmartPointer(const vtkSmartPointer<S> & o) : _p(o._p) {}
    static vtkSmartPointer New()
    {
        vtkSmartPointer r;
        r._p = std::make_shared<T>();
        return r;
    }
    static vtkSmartPointer Take(T * p)
    {
        vtkSmartPointer r(p);
        if (p) p->Delete();
        return r;
    }
    void TakeReference(T * p) { *this = Take(p); }
    T * operator->() const { return _p.get(); }
    T & operator*() const { return *_p; }
    T * Get() const { return _p.get(); }
    T * GetPointer() const { return _p.get(); }
    operator T *() const { return _p.get(); }
};
template <class T> class vtkNew {
    std::shared_ptr<T> _p = std::make_shared<T>();

  public:
    vtkNew() = default;
    vtkNew(const vtkNew &) = delete;
    T * operator->() const { return _p.get(); }
    T & operator*() const { return *_p; }
    T * Get() const { return _p.get(); }
    T * GetPointer() const { return _p.get(); }
    operator T *() const { return _p.get(); }
    operator vtkSmartPointer<T>() const { return vtkSmartPointer<T>(_p.get()); }
};
#define STANDIN(T) static T * New() { return standin::create<T>(); }
using vtkIdType = long long;
enum { VTK_VERTEX = 1, VTK_POLY_VERTEX = 2, VTK_LINE = 3, VTK_TRIANGLE = 5, VTK_TETRA = 10, VTK_FLOAT = 10, VTK_DOUBLE = 11 };
struct vtkIdList : vtkObject {
    std::vector<vtkIdType> ids;
    vtkIdList() = default;
    explicit vtkIdList(int n) : ids(n, -1) {}
    STANDIN(vtkIdList)
    void SetId(vtkIdType i, vtkIdType id)
    {
        standin::demand(i >= 0 && i < (vtkIdType) ids.size(), "local index out of the cell");
        ids[i] = id;
    }
    void InsertId(vtkIdType i, vtkIdType id)
    {
        if (i >= (vtkIdType) ids.size()) ids.resize(i + 1, -1);
        ids[i] = id;
    }
    vtkIdType InsertNextId(vtkIdType id)
    {
        ids.push_back(id);
        return (vtkIdType) ids.size() - 1;
    }
    void SetNumberOfIds(vtkIdType n) { ids.resize(n, -1); }
    void Allocate(vtkIdType, int = 1) { ids.clear(); }
    void Reset() { ids.clear(); }
    vtkIdType GetId(vtkIdType i) const { return ids.at(i); }
    vtkIdType GetNumberOfIds() const { return (vtkIdType) ids.size(); }
    const vtkIdType * begin() const { return ids.data(); }
    const vtkIdType * end() const { return ids.data() + ids.size(); }
};
struct vtkCell : vtkObject {
    int type;
    std::shared_ptr<vtkIdList> ids;
    vtkIdList * PointIds;
    vtkCell(int type, int nodes) : type(type), ids(std::make_shared<vtkIdList>(nodes)), PointIds(ids.get()) {}
    vtkIdList * GetPointIds() { return ids.get(); }
    vtkIdType GetPointId(int i) { return ids->GetId(i); }
    int GetCellType() const { return type; }
    vtkIdType GetNumberOfPoints() const { return ids->GetNumberOfIds(); }
};
// the types of the file format
struct vtkLine : vtkCell {
    vtkLine() : vtkCell(VTK_LINE, 2) {}
    STANDIN(vtkLine)
};
struct vtkTriangle : vtkCell {
    vtkTriangle() : vtkCell(VTK_TRIANGLE, 3) {}
    STANDIN(vtkTriangle)
};
struct vtkTetra : vtkCell {
    vtkTetra() : vtkCell(VTK_TETRA, 4) {}
    STANDIN(vtkTetra)
};
struct vtkPoints : vtkObject {
    std::vector<std::array<double, 3>> points;
    STANDIN(vtkPoints)
    // (in which precision VTK keeps them is up to VTK)
    void SetDataType(int) {}
    void SetDataTypeToDouble() {}
    int Allocate(vtkIdType, vtkIdType = 1000)
    {
        points.clear();
        return 1;
    }
    int Resize(vtkIdType n)
    {
        if (n < (vtkIdType) points.size()) points.resize(n);
        return 1;
    }
    void Reset() { points.clear(); }
    void Initialize() { points.clear(); }
    vtkIdType InsertNextPoint(double x, double y, double z)
    {
        points.push_back({ x, y, z });
        return (vtkIdType) points.size() - 1;
    }
    vtkIdType InsertNextPoint(const double x[3]) { return InsertNextPoint(x[0], x[1], x[2]); }
    void InsertPoint(vtkIdType i, double x, double y, double z)
    {
        standin::demand(i >= 0, "negative index of a point");
        if (i >= (vtkIdType) points.size()) points.resize(i + 1);
        points[i] = { x, y, z };
    }
    void InsertPoint(vtkIdType i, const double x[3]) { InsertPoint(i, x[0], x[1], x[2]); }
    void SetNumberOfPoints(vtkIdType n) { points.resize(n); }
    void SetPoint(vtkIdType i, double x, double y, double z)
    {
        standin::demand(i >= 0 && i < (vtkIdType) points.size(), "point beyond those there are");
        points[i] = { x, y, z };
    }
    void SetPoint(vtkIdType i, const double x[3]) { SetPoint(i, x[0], x[1], x[2]); }
    double * GetPoint(vtkIdType i) { return points.at(i).data(); }
    void GetPoint(vtkIdType i, double x[3])
    {
        for (int k = 0; k < 3; ++k) x[k] = points.at(i)[k];
    }
    vtkIdType GetNumberOfPoints() const { return (vtkIdType) points.size(); }
};
struct vtkDataArray : vtkObject {
    std::string name;
    int components = 1;
    std::vector<double> values;
    std::vector<bool> written;
    // what the array can hold of a value
    virtual double kept(double v) const { return v; }
    void SetName(const char * n) { name = n; }
    const char * GetName() const { return name.c_str(); }
    void SetNumberOfComponents(int n) { components = n; }
    int GetNumberOfComponents() const { return components; }
    void SetNumberOfTuples(vtkIdType n)
    {
        values.resize(n * components);
        written.resize(n);
    }
    bool SetNumberOfValues(vtkIdType n)
    {
        SetNumberOfTuples((n + components - 1) / components);
        return true;
    }
    int Allocate(vtkIdType, vtkIdType = 1000) { return 1; }
    vtkIdType GetNumberOfTuples() const { return (vtkIdType) values.size() / components; }
    vtkIdType GetNumberOfValues() const { return (vtkIdType) values.size(); }
    template <class T> void SetTuple(vtkIdType i, const T * v)
    {
        standin::demand(i >= 0 && i < GetNumberOfTuples(), "tuple beyond those of the array");
        for (int k = 0; k < components; ++k) values[i * components + k] = kept(v[k]);
        written[i] = true;
    }
    template <class T> void SetTypedTuple(vtkIdType i, const T * v) { SetTuple(i, v); }
    template <class T> void InsertTuple(vtkIdType i, const T * v)
    {
        if (i >= GetNumberOfTuples()) SetNumberOfTuples(i + 1);
        SetTuple(i, v);
    }
    template <class T> vtkIdType InsertNextTuple(const T * v)
    {
        auto n = GetNumberOfTuples();
        SetNumberOfTuples(n + 1);
        SetTuple(n, v);
        return n;
    }
    template <class T> vtkIdType InsertNextTypedTuple(const T * v) { return InsertNextTuple(v); }
    void SetTuple1(vtkIdType i, double v) { SetTuple(i, &v); }
    vtkIdType InsertNextTuple1(double v) { return InsertNextTuple(&v); }
    void SetValue(vtkIdType i, double v)
    {
        standin::demand(i >= 0 && i < (vtkIdType) values.size(), "value beyond those of the array");
        values[i] = kept(v);
        written[i / components] = true;
    }
    vtkIdType InsertNextValue(double v)
    {
        standin::demand(components == 1, "one value of a tuple");
        return InsertNextTuple1(v);
    }
    void SetComponent(vtkIdType i, int c, double v) { SetValue(i * components + c, v); }
    double GetComponent(vtkIdType i, int c) const { return values.at(i * components + c); }
    double GetValue(vtkIdType i) const { return values.at(i); }
    double GetTuple1(vtkIdType i) const { return values.at(i * components); }
    double * GetTuple(vtkIdType i) { return &values.at(i * components); }
    void Fill(double v)
    {
        for (vtkIdType i = 0; i < GetNumberOfValues(); ++i) SetValue(i, v);
    }
};
struct vtkDoubleArray : vtkDataArray {
    STANDIN(vtkDoubleArray)
};
// what is kept in single precision is rounded to it
struct vtkFloatArray : vtkDataArray {
    STANDIN(vtkFloatArray)
    double kept(double v) const override { return (float) v; }
};
struct vtkPointData : vtkObject {
    std::vector<std::shared_ptr<vtkDataArray>> arrays;
    // an array by the name of another takes its place
    int AddArray(vtkDataArray * a)
    {
        standin::demand(a, "no array");
        for (size_t i = 0; i < arrays.size(); ++i)
            if (arrays[i]->name == a->name) return arrays[i] = standin::share(a), (int) i;
        arrays.push_back(standin::share(a));
        return (int) arrays.size() - 1;
    }
    int GetNumberOfArrays() const { return (int) arrays.size(); }
    vtkDataArray * GetArray(int i) { return arrays.at(i).get(); }
    vtkDataArray * GetArray(const char * n)
    {
        for (auto & a : arrays)
            if (a->name == n) return a.get();
        return nullptr;
    }
    bool HasArray(const char * n) { return GetArray(n) != nullptr; }
    void RemoveArray(const char * n)
    {
        std::erase_if(arrays, [&](auto & a) { return a->name == n; });
    }
};
struct vtkUnstructuredGrid : vtkObject {
    struct Cell {
        int type;
        std::vector<vtkIdType> ids;
    };
    std::vector<Cell> cells;
    std::shared_ptr<vtkPoints> points;
    std::shared_ptr<vtkPointData> data = std::make_shared<vtkPointData>();
    STANDIN(vtkUnstructuredGrid)
    void Allocate(vtkIdType = 1000, int = 1000) { cells.clear(); }
    bool AllocateEstimate(vtkIdType, vtkIdType)
    {
        cells.clear();
        return true;
    }
    bool AllocateExact(vtkIdType, vtkIdType) { return AllocateEstimate(0, 0); }
    vtkIdType InsertNextCell(int type, vtkIdList * ids)
    {
        cells.push_back({ type, ids->ids });
        return (vtkIdType) cells.size() - 1;
    }
    vtkIdType InsertNextCell(int type, vtkIdType n, const vtkIdType * ids)
    {
        cells.push_back({ type, { ids, ids + n } });
        return (vtkIdType) cells.size() - 1;
    }
    void SetPoints(vtkPoints * p) { points = standin::share(p); }
    vtkPoints * GetPoints() const { return points.get(); }
    vtkIdType GetNumberOfPoints() const { return points ? points->GetNumberOfPoints() : 0; }
    vtkIdType GetNumberOfCells() const { return (vtkIdType) cells.size(); }
    vtkPointData * GetPointData() { return data.get(); }
};
namespace standin {
// what is in a file
struct File {
    struct Array {
        int components;
        std::vector<double> values;
        std::vector<bool> written;
    };
    std::vector<std::array<double, 3>> points;
    std::vector<vtkUnstructuredGrid::Cell> cells;
    std::map<std::string, Array> arrays;
    int writes = 0;
    // of a parallel file
    int pieces = 0, start = 0, end = 0;
};
inline std::map<std::string, File> files;
inline int tasks = 1, rank = 0;
struct Writer : vtkObject {
    std::string name;
    std::shared_ptr<vtkUnstructuredGrid> grid;
    int pieces = 1, start = 0, end = 0;
    void SetFileName(const char * n) { name = n; }
    void SetInputData(vtkUnstructuredGrid * g) { grid = share(g); }
    void SetDataModeToAscii() {}
    void SetDataModeToBinary() {}
    void SetDataModeToAppended() {}
    void SetCompressorTypeToNone() {}
    int Update() { return Write(); }
    int Write()
    {
        demand(grid && !name.empty(), "nothing to write, or nowhere");
        File f;
        if (grid->points) f.points = grid->points->points;
        f.cells = grid->cells;
        for (auto & a : grid->data->arrays) f.arrays[a->name] = { a->components, a->values, a->written };
        f.pieces = pieces, f.start = start, f.end = end;
        f.writes = files[name].writes + 1;
        files[name] = f;
        return 1;
    }
};
}
struct vtkXMLUnstructuredGridWriter : standin::Writer {
    STANDIN(vtkXMLUnstructuredGridWriter)
};
struct vtkXMLPUnstructuredGridWriter : standin::Writer {
    STANDIN(vtkXMLPUnstructuredGridWriter)
    void SetNumberOfPieces(int n) { pieces = n; }
    void SetStartPiece(int n) { start = n; }
    void SetEndPiece(int n) { end = n; }
};
struct vtkMPIController : vtkObject {
    static inline int alive = 0;
    STANDIN(vtkMPIController)
    // (the simulation has initialized MPI, and still needs it after writing)
    void Initialize(int *, char ***, int external = 0)
    {
        standin::demand(external, "MPI is initialized again");
        ++alive;
    }
    void Finalize(int external = 0)
    {
        standin::demand(external, "MPI is finalized while it is in use");
        --alive;
    }
    static void SetGlobalController(vtkMPIController *) {}
    int GetNumberOfProcesses() { return standin::tasks; }
    int GetLocalProcessId() { return standin::rank; }
};
