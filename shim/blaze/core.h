// A small eager stand-in for the parts of the Blaze library that ieompp uses (Blaze itself is not installed here).
// The preconditions that Blaze documents are assertions.
#ifndef VP_SHIM_BLAZE_CORE_H_
#define VP_SHIM_BLAZE_CORE_H_
#include "vp.h"
#include <algorithm>
#include <cmath>
#include <complex>
#include <cstddef>
#include <initializer_list>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#define BLAZE_MAJOR_VERSION 3
#define BLAZE_MINOR_VERSION 8

namespace blaze
{
    using std::size_t;
    constexpr bool columnVector = false;
    constexpr bool rowVector    = true;
    constexpr bool rowMajor     = false;
    constexpr bool columnMajor  = true;

    template <typename T>
    struct IsScalar : std::is_arithmetic<T> {
    };
    template <typename T>
    struct IsScalar<std::complex<T>> : std::true_type {
    };

    // ------------------------------------------------------------------------------------------------ StaticVector
    template <typename T, size_t N, bool TF = columnVector>
    class StaticVector
    {
        T _v[N];

    public:
        using ElementType = T;
        StaticVector()
        {
            for(size_t i = 0; i < N; ++i) {
                _v[i] = T();
            }
        }
        StaticVector(std::initializer_list<T> l) : StaticVector()
        {
            vp_assert(l.size() <= N, "blaze: initialiser of a static vector is not too long");
            size_t i = 0;
            for(const auto& x : l) {
                _v[i++] = x;
            }
        }
        explicit StaticVector(const T& x)
        {
            for(size_t i = 0; i < N; ++i) {
                _v[i] = x;
            }
        }
        StaticVector& operator=(const T& x)
        {
            for(size_t i = 0; i < N; ++i) {
                _v[i] = x;
            }
            return *this;
        }
        static constexpr size_t size() { return N; }
        T* data() { return _v; }
        const T* data() const { return _v; }
        void reset() { *this = T(); }
        StaticVector& operator+=(const StaticVector& o)
        {
            for(size_t i = 0; i < N; ++i) {
                _v[i] += o._v[i];
            }
            return *this;
        }
        StaticVector& operator-=(const StaticVector& o)
        {
            for(size_t i = 0; i < N; ++i) {
                _v[i] -= o._v[i];
            }
            return *this;
        }
        template <typename S>
        typename std::enable_if<IsScalar<S>::value, StaticVector&>::type operator*=(const S& s)
        {
            for(size_t i = 0; i < N; ++i) {
                _v[i] *= s;
            }
            return *this;
        }
        template <typename S>
        typename std::enable_if<IsScalar<S>::value, StaticVector&>::type operator/=(const S& s)
        {
            for(size_t i = 0; i < N; ++i) {
                _v[i] /= s;
            }
            return *this;
        }
        T& operator[](size_t i)
        {
            vp_assert(i < N, "blaze: static vector index in range");
            return _v[i];
        }
        const T& operator[](size_t i) const
        {
            vp_assert(i < N, "blaze: static vector index in range");
            return _v[i];
        }
        T* begin() { return _v; }
        T* end() { return _v + N; }
        const T* begin() const { return _v; }
        const T* end() const { return _v + N; }
        const T* cbegin() const { return _v; }
        const T* cend() const { return _v + N; }
    };
#define VP_SV StaticVector<T, N, TF>
    template <typename T, size_t N, bool TF>
    VP_SV operator+(const VP_SV& a, const VP_SV& b)
    {
        VP_SV r;
        for(size_t i = 0; i < N; ++i) {
            r[i] = a[i] + b[i];
        }
        return r;
    }
    template <typename T, size_t N, bool TF>
    VP_SV operator-(const VP_SV& a, const VP_SV& b)
    {
        VP_SV r;
        for(size_t i = 0; i < N; ++i) {
            r[i] = a[i] - b[i];
        }
        return r;
    }
    template <typename T, size_t N, bool TF>
    VP_SV operator-(const VP_SV& a)
    {
        VP_SV r;
        for(size_t i = 0; i < N; ++i) {
            r[i] = -a[i];
        }
        return r;
    }
    template <typename S, typename T, size_t N, bool TF>
    typename std::enable_if<IsScalar<S>::value, VP_SV>::type operator*(const S& s, const VP_SV& a)
    {
        VP_SV r;
        for(size_t i = 0; i < N; ++i) {
            r[i] = s * a[i];
        }
        return r;
    }
    template <typename S, typename T, size_t N, bool TF>
    typename std::enable_if<IsScalar<S>::value, VP_SV>::type operator*(const VP_SV& a, const S& s)
    {
        return s * a;
    }
    template <typename S, typename T, size_t N, bool TF>
    typename std::enable_if<IsScalar<S>::value, VP_SV>::type operator/(const VP_SV& a, const S& s)
    {
        VP_SV r(a);
        r /= s;
        return r;
    }
    template <typename T, size_t N, bool TF1, bool TF2>
    T dot(const StaticVector<T, N, TF1>& a, const StaticVector<T, N, TF2>& b)
    {
        T r = a[0] * b[0];
        for(size_t i = 1; i < N; ++i) {
            r += a[i] * b[i];
        }
        return r;
    }
    template <typename T, size_t N, bool TF1, bool TF2>
    T inner(const StaticVector<T, N, TF1>& a, const StaticVector<T, N, TF2>& b)
    {
        return dot(a, b);
    }
    template <typename T, size_t N, bool TF>
    constexpr size_t size(const VP_SV&)
    {
        return N;
    }
    template <typename T, size_t N, bool TF>
    T sum(const VP_SV& a)
    {
        T r = a[0];
        for(size_t i = 1; i < N; ++i) {
            r += a[i];
        }
        return r;
    }
    template <typename T, size_t N, bool TF>
    T sqrLength(const VP_SV& a)
    {
        return dot(a, a);
    }
    template <typename T, size_t N, bool TF>
    T length(const VP_SV& a)
    {
        return std::sqrt(dot(a, a));
    }
    template <typename T, size_t N, bool TF>
    T norm(const VP_SV& a)
    {
        return std::sqrt(dot(a, a));
    }
    template <typename T, size_t N, bool TF>
    StaticVector<T, N, !TF> trans(const VP_SV& a)
    {
        StaticVector<T, N, !TF> r;
        for(size_t i = 0; i < N; ++i) {
            r[i] = a[i];
        }
        return r;
    }
    template <typename T, size_t N>
    T operator*(const StaticVector<T, N, rowVector>& a, const StaticVector<T, N, columnVector>& b)
    {
        T r = a[0] * b[0];
        for(size_t i = 1; i < N; ++i) {
            r += a[i] * b[i];
        }
        return r;
    }
    template <typename T, size_t N, bool TF>
    bool operator==(const VP_SV& a, const VP_SV& b)
    {
        for(size_t i = 0; i < N; ++i) {
            if(!(a[i] == b[i])) {
                return false;
            }
        }
        return true;
    }
    template <typename T, size_t N, bool TF>
    bool operator!=(const VP_SV& a, const VP_SV& b)
    {
        return !(a == b);
    }
#undef VP_SV

    // ----------------------------------------------------------------------------------------------- DynamicVector
    template <typename T, bool TF = columnVector>
    class DynamicVector
    {
        std::vector<T> _v;

    public:
        using ElementType = T;
        DynamicVector() {}
        explicit DynamicVector(size_t n) : _v(n) {}
        DynamicVector(size_t n, const T& x) : _v(n, x) {}
        DynamicVector(std::initializer_list<T> l) : _v(l) {}
        DynamicVector& operator=(const T& x)
        {
            for(auto& y : _v) {
                y = x;
            }
            return *this;
        }
        DynamicVector& operator=(std::initializer_list<T> l)
        {
            _v.assign(l.begin(), l.end());
            return *this;
        }

        size_t size() const { return _v.size(); }
        void resize(size_t n, bool preserve = true)
        {
            static_cast<void>(preserve);
            _v.resize(n);
        }
        void reset()
        {
            for(auto& x : _v) {
                x = T();
            }
        }
        void clear() { _v.clear(); }
        void swap(DynamicVector& o) { _v.swap(o._v); }
        void reserve(size_t n) { _v.reserve(n); }
        size_t capacity() const { return _v.capacity(); }
        void extend(size_t n, bool preserve = true) { resize(_v.size() + n, preserve); }
        T* data() { return _v.data(); }
        const T* data() const { return _v.data(); }
        T& at(size_t i) { return (*this)[i]; }
        const T& at(size_t i) const { return (*this)[i]; }
        T& operator[](size_t i)
        {
            vp_assert(i < _v.size(), "blaze: vector index in range");
            return _v[i];
        }
        const T& operator[](size_t i) const
        {
            vp_assert(i < _v.size(), "blaze: vector index in range");
            return _v[i];
        }
        T& operator()(size_t i) { return (*this)[i]; }
        const T& operator()(size_t i) const { return (*this)[i]; }
        typename std::vector<T>::iterator begin() { return _v.begin(); }
        typename std::vector<T>::iterator end() { return _v.end(); }
        typename std::vector<T>::const_iterator begin() const { return _v.begin(); }
        typename std::vector<T>::const_iterator end() const { return _v.end(); }
        typename std::vector<T>::const_iterator cbegin() const { return _v.begin(); }
        typename std::vector<T>::const_iterator cend() const { return _v.end(); }
        DynamicVector& operator+=(const DynamicVector& o)
        {
            vp_assert(size() == o.size(), "blaze: vector sizes match");
            for(size_t i = 0; i < size(); ++i) {
                _v[i] += o._v[i];
            }
            return *this;
        }
        DynamicVector& operator-=(const DynamicVector& o)
        {
            vp_assert(size() == o.size(), "blaze: vector sizes match");
            for(size_t i = 0; i < size(); ++i) {
                _v[i] -= o._v[i];
            }
            return *this;
        }
        template <typename S>
        typename std::enable_if<IsScalar<S>::value, DynamicVector&>::type operator*=(const S& s)
        {
            for(auto& x : _v) {
                x *= s;
            }
            return *this;
        }
        template <typename S>
        typename std::enable_if<IsScalar<S>::value, DynamicVector&>::type operator/=(const S& s)
        {
            for(auto& x : _v) {
                x /= s;
            }
            return *this;
        }
        template <typename S>
        DynamicVector& scale(const S& s)
        {
            return *this *= s;
        }
    };
#define VP_DV DynamicVector<T, TF>
    template <typename T, bool TF>
    size_t size(const VP_DV& a)
    {
        return a.size();
    }
    template <typename T, bool TF>
    void reset(VP_DV& a)
    {
        a.reset();
    }
    template <typename T, bool TF>
    void clear(VP_DV& a)
    {
        a.clear();
    }
    template <typename T, bool TF>
    void swap(VP_DV& a, VP_DV& b)
    {
        a.swap(b);
    }
    template <typename T, bool TF>
    VP_DV operator-(const VP_DV& a)
    {
        VP_DV r(a);
        for(auto& x : r) {
            x = -x;
        }
        return r;
    }
    template <typename T, bool TF1, bool TF2>
    T dot(const DynamicVector<T, TF1>& a, const DynamicVector<T, TF2>& b)
    {
        vp_assert(a.size() == b.size(), "blaze: vector sizes match");
        T r = T();
        for(size_t i = 0; i < a.size(); ++i) {
            r += a[i] * b[i];
        }
        return r;
    }
    template <typename T, bool TF1, bool TF2>
    T inner(const DynamicVector<T, TF1>& a, const DynamicVector<T, TF2>& b)
    {
        return dot(a, b);
    }
    template <typename T, bool TF>
    T sum(const VP_DV& a)
    {
        T r = T();
        for(const auto& x : a) {
            r += x;
        }
        return r;
    }
    template <typename T, bool TF>
    VP_DV conj(const VP_DV& a)
    {
        VP_DV r(a);
        for(auto& x : r) {
            x = T(x.real(), -x.imag());
        }
        return r;
    }
    template <typename T, bool TF>
    DynamicVector<T, !TF> trans(const VP_DV& a);
    template <typename T, bool TF>
    DynamicVector<T, !TF> ctrans(const VP_DV& a)
    {
        return trans(conj(a));
    }
    template <typename T, bool TF>
    VP_DV operator+(const VP_DV& a, const VP_DV& b)
    {
        VP_DV r(a);
        r += b;
        return r;
    }
    template <typename T, bool TF>
    VP_DV operator-(const VP_DV& a, const VP_DV& b)
    {
        VP_DV r(a);
        r -= b;
        return r;
    }
    template <typename S, typename T, bool TF>
    typename std::enable_if<IsScalar<S>::value, VP_DV>::type operator*(const S& s, const VP_DV& a)
    {
        VP_DV r(a);
        r *= s;
        return r;
    }
    template <typename S, typename T, bool TF>
    typename std::enable_if<IsScalar<S>::value, VP_DV>::type operator*(const VP_DV& a, const S& s)
    {
        return s * a;
    }
    template <typename S, typename T, bool TF>
    typename std::enable_if<IsScalar<S>::value, VP_DV>::type operator/(const VP_DV& a, const S& s)
    {
        VP_DV r(a);
        for(auto& x : r) {
            x /= s;
        }
        return r;
    }
    template <typename T, bool TF>
    DynamicVector<T, !TF> trans(const VP_DV& a)
    {
        DynamicVector<T, !TF> r(a.size());
        for(size_t i = 0; i < a.size(); ++i) {
            r[i] = a[i];
        }
        return r;
    }
    template <typename T>
    T operator*(const DynamicVector<T, rowVector>& a, const DynamicVector<T, columnVector>& b)
    {
        vp_assert(a.size() == b.size(), "blaze: vector sizes match");
        T r = T();
        for(size_t i = 0; i < a.size(); ++i) {
            r += a[i] * b[i];
        }
        return r;
    }
    template <typename T, bool TF>
    bool operator==(const VP_DV& a, const VP_DV& b)
    {
        return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin());
    }
    template <typename T, bool TF>
    bool operator!=(const VP_DV& a, const VP_DV& b)
    {
        return !(a == b);
    }
#undef VP_DV

    template <typename T, bool TF = columnVector>
    class CompressedVector : public DynamicVector<T, TF>
    {
    public:
        using DynamicVector<T, TF>::DynamicVector;
    };

    // ----------------------------------------------------------------------------------------------- DynamicMatrix
    template <typename T, bool SO = rowMajor>
    class DynamicMatrix
    {
        size_t _r = 0, _c = 0;
        std::vector<T> _v;

    public:
        using ElementType = T;
        DynamicMatrix() {}
        DynamicMatrix(size_t r, size_t c) : _r(r), _c(c), _v(r * c) {}
        DynamicMatrix(size_t r, size_t c, const T& x) : _r(r), _c(c), _v(r * c, x) {}
        DynamicMatrix(std::initializer_list<std::initializer_list<T>> rows)
        {
            for(const auto& row : rows) {
                vp_assert(_r == 0 || row.size() == _c, "blaze: rows of the same length");
                _c = row.size();
                ++_r;
                _v.insert(_v.end(), row.begin(), row.end());
            }
        }
        template <typename S>
        typename std::enable_if<IsScalar<S>::value, DynamicMatrix&>::type operator*=(const S& s)
        {
            for(auto& x : _v) {
                x *= s;
            }
            return *this;
        }
        template <typename S>
        typename std::enable_if<IsScalar<S>::value, DynamicMatrix&>::type operator/=(const S& s)
        {
            for(auto& x : _v) {
                x /= s;
            }
            return *this;
        }
        DynamicMatrix& operator+=(const DynamicMatrix& o)
        {
            vp_assert((_r == o._r) & (_c == o._c), "blaze: matrix sizes match");
            for(size_t i = 0; i < _v.size(); ++i) {
                _v[i] += o._v[i];
            }
            return *this;
        }
        DynamicMatrix& operator-=(const DynamicMatrix& o)
        {
            vp_assert((_r == o._r) & (_c == o._c), "blaze: matrix sizes match");
            for(size_t i = 0; i < _v.size(); ++i) {
                _v[i] -= o._v[i];
            }
            return *this;
        }
        size_t rows() const { return _r; }
        size_t columns() const { return _c; }
        void resize(size_t r, size_t c, bool preserve = true)
        {
            std::vector<T> v(r * c);
            for(size_t i = 0; preserve && i < r && i < _r; ++i) {
                for(size_t j = 0; j < c && j < _c; ++j) {
                    v[i * c + j] = _v[i * _c + j];
                }
            }
            _r = r;
            _c = c;
            _v.swap(v);
        }
        void reset()
        {
            for(auto& x : _v) {
                x = T();
            }
        }
        T& operator()(size_t i, size_t j)
        {
            vp_assert((i < _r) & (j < _c), "blaze: matrix indices in range");
            return _v[i * _c + j];
        }
        const T& operator()(size_t i, size_t j) const
        {
            vp_assert((i < _r) & (j < _c), "blaze: matrix indices in range");
            return _v[i * _c + j];
        }
    };
    template <typename S, typename T, bool SO>
    typename std::enable_if<IsScalar<S>::value, DynamicMatrix<T, SO>>::type operator*(const S& s, const DynamicMatrix<T, SO>& m)
    {
        DynamicMatrix<T, SO> r(m);
        r *= s;
        return r;
    }
    template <typename S, typename T, bool SO>
    typename std::enable_if<IsScalar<S>::value, DynamicMatrix<T, SO>>::type operator*(const DynamicMatrix<T, SO>& m, const S& s)
    {
        return s * m;
    }
    template <typename S, typename T, bool SO>
    typename std::enable_if<IsScalar<S>::value, DynamicMatrix<T, SO>>::type operator/(const DynamicMatrix<T, SO>& m, const S& s)
    {
        DynamicMatrix<T, SO> r(m);
        r /= s;
        return r;
    }
    template <typename T, bool SO>
    DynamicMatrix<T, SO> operator+(const DynamicMatrix<T, SO>& a, const DynamicMatrix<T, SO>& b)
    {
        DynamicMatrix<T, SO> r(a);
        r += b;
        return r;
    }
    template <typename T, bool SO>
    DynamicMatrix<T, SO> operator-(const DynamicMatrix<T, SO>& a, const DynamicMatrix<T, SO>& b)
    {
        DynamicMatrix<T, SO> r(a);
        r -= b;
        return r;
    }
    template <typename T, bool SO>
    DynamicMatrix<T, SO> operator*(const DynamicMatrix<T, SO>& a, const DynamicMatrix<T, SO>& b)
    {
        vp_assert(a.columns() == b.rows(), "blaze: matrix sizes match");
        DynamicMatrix<T, SO> r(a.rows(), b.columns());
        for(size_t i = 0; i < a.rows(); ++i) {
            for(size_t j = 0; j < b.columns(); ++j) {
                for(size_t k = 0; k < b.rows(); ++k) {
                    r(i, j) += a(i, k) * b(k, j);
                }
            }
        }
        return r;
    }
    template <typename T, bool SO>
    DynamicVector<T, columnVector> operator*(const DynamicMatrix<T, SO>& m, const DynamicVector<T, columnVector>& v)
    {
        vp_assert(m.columns() == v.size(), "blaze: matrix and vector sizes match");
        DynamicVector<T, columnVector> r(m.rows());
        for(size_t i = 0; i < m.rows(); ++i) {
            for(size_t j = 0; j < m.columns(); ++j) {
                r[i] += m(i, j) * v[j];
            }
        }
        return r;
    }

    // -------------------------------------------------------------------------------------------- CompressedMatrix
    // row-major: append() in ascending order within the reserved capacity, then finalize() row by row
    template <typename T, bool SO = rowMajor>
    class CompressedMatrix
    {
        struct Entry {
            size_t column;
            T value;
        };
        size_t _r = 0, _c = 0, _capacity = 0, _nonzeros = 0, _finalized = 0;
        std::vector<std::vector<Entry>> _rows;
        bool _appending = false;

        T get(size_t i, size_t j) const
        {
            vp_assert((i < _r) & (j < _c), "blaze: matrix indices in range");
            vp_assert(!_appending || _finalized == _r, "blaze: all rows are finalised before the matrix is used");
            for(const auto& e : _rows[i]) {
                if(e.column == j) {
                    return e.value;
                }
            }
            return T();
        }

    public:
        using ElementType = T;
        // element access of a matrix that is not constant
        class Proxy
        {
            CompressedMatrix* _m;
            size_t _i, _j;

        public:
            Proxy(CompressedMatrix* m, size_t i, size_t j) : _m(m), _i(i), _j(j) {}
            operator T() const { return _m->get(_i, _j); }
            Proxy& operator=(const T& x)
            {
                _m->set(_i, _j, x);
                return *this;
            }
            Proxy& operator=(const Proxy& o) { return *this = T(o); }
            Proxy& operator+=(const T& x) { return *this = T(*this) + x; }
            Proxy& operator-=(const T& x) { return *this = T(*this) - x; }
            Proxy& operator*=(const T& x) { return *this = T(*this) * x; }
            Proxy& operator/=(const T& x) { return *this = T(*this) / x; }
            auto real() const { return T(*this).real(); }
            auto imag() const { return T(*this).imag(); }
        };
        struct ConstIterator {
            const Entry* e;
            size_t index() const { return e->column; }
            const T& value() const { return e->value; }
            const ConstIterator& operator*() const { return *this; }
            const ConstIterator* operator->() const { return this; }
            ConstIterator& operator++()
            {
                ++e;
                return *this;
            }
            bool operator==(const ConstIterator& o) const { return e == o.e; }
            bool operator!=(const ConstIterator& o) const { return e != o.e; }
        };
        struct Iterator {
            Entry* e;
            size_t index() const { return e->column; }
            T& value() const { return e->value; }
            const Iterator& operator*() const { return *this; }
            const Iterator* operator->() const { return this; }
            Iterator& operator++()
            {
                ++e;
                return *this;
            }
            bool operator==(const Iterator& o) const { return e == o.e; }
            bool operator!=(const Iterator& o) const { return e != o.e; }
        };
        ConstIterator begin(size_t i) const { return ConstIterator{_rows[i].data()}; }
        ConstIterator end(size_t i) const { return ConstIterator{_rows[i].data() + _rows[i].size()}; }
        ConstIterator cbegin(size_t i) const { return begin(i); }
        ConstIterator cend(size_t i) const { return end(i); }
        Iterator begin(size_t i) { return Iterator{_rows[i].data()}; }
        Iterator end(size_t i) { return Iterator{_rows[i].data() + _rows[i].size()}; }
        CompressedMatrix() {}
        CompressedMatrix(size_t r, size_t c) { resize(r, c); }
        size_t rows() const { return _r; }
        size_t columns() const { return _c; }
        size_t nonZeros() const { return _nonzeros; }
        size_t capacity() const { return _capacity; }
        // rows that were filled by append() are all finalised
        bool complete() const { return !_appending || _finalized == _r; }
        void resize(size_t r, size_t c, bool preserve = true)
        {
            _r = r;
            _c = c;
            if(!preserve) {
                _rows.clear();
                _nonzeros = _finalized = 0;
            }
            _rows.resize(r);
        }
        void reset()
        {
            for(auto& r : _rows) {
                r.clear();
            }
            _nonzeros = _finalized = 0;
            _appending = false;
        }
        void reserve(size_t n)
        {
            if(n > _capacity) {
                _capacity = n;
            }
        }
        template <typename S>
        typename std::enable_if<IsScalar<S>::value, CompressedMatrix&>::type operator*=(const S& s)
        {
            for(auto& r : _rows) {
                for(auto& e : r) {
                    e.value *= s;
                }
            }
            return *this;
        }
        void append(size_t i, size_t j, const T& x, bool check = false)
        {
            static_cast<void>(check);
            vp_assert((i < _r) & (j < _c), "blaze: appended element lies inside of the matrix");
            vp_assert(i == _finalized, "blaze: rows are filled one after the other");
            vp_assert(_nonzeros < _capacity, "blaze: appended element fits into the reserved capacity");
            vp_assert(_rows[i].empty() || _rows[i].back().column < j, "blaze: elements of a row are appended in strictly ascending order");
            _rows[i].push_back(Entry{j, x});
            ++_nonzeros;
            _appending = true;
        }
        void finalize(size_t i)
        {
            vp_assert(i == _finalized, "blaze: rows are finalised one after the other");
            ++_finalized;
        }
        void insert(size_t i, size_t j, const T& x)
        {
            vp_assert((i < _r) & (j < _c), "blaze: inserted element lies inside of the matrix");
            auto it = _rows[i].begin();
            while(it != _rows[i].end() && it->column < j) {
                ++it;
            }
            vp_assert(it == _rows[i].end() || it->column != j, "blaze: inserted element does not exist yet");
            _rows[i].insert(it, Entry{j, x});
            ++_nonzeros;
        }
        // inserts the element or replaces it
        void set(size_t i, size_t j, const T& x)
        {
            vp_assert((i < _r) & (j < _c), "blaze: matrix indices in range");
            for(auto& e : _rows[i]) {
                if(e.column == j) {
                    e.value = x;
                    return;
                }
            }
            insert(i, j, x);
        }
        T operator()(size_t i, size_t j) const { return get(i, j); }
        Proxy operator()(size_t i, size_t j)
        {
            vp_assert((i < _r) & (j < _c), "blaze: matrix indices in range");
            return Proxy(this, i, j);
        }
        void reserve(size_t i, size_t n)
        {
            vp_assert(i < _r, "blaze: matrix indices in range");
            _capacity += n;
        }
        size_t nonZeros(size_t i) const { return _rows[i].size(); }
        // the k-th stored element of row i
        size_t stored_column(size_t i, size_t k) const { return _rows[i][k].column; }
        const T& stored_value(size_t i, size_t k) const { return _rows[i][k].value; }
        DynamicVector<T, columnVector> multiply(const DynamicVector<T, columnVector>& v) const
        {
            vp_assert(_c == v.size(), "blaze: matrix and vector sizes match");
            DynamicVector<T, columnVector> r(_r);
            for(size_t i = 0; i < _r; ++i) {
                for(const auto& e : _rows[i]) {
                    r[i] += e.value * v[e.column];
                }
            }
            return r;
        }
    };
    template <typename S, typename T, bool SO>
    typename std::enable_if<IsScalar<S>::value, CompressedMatrix<T, SO>>::type operator*(const S& s, const CompressedMatrix<T, SO>& m)
    {
        CompressedMatrix<T, SO> r(m);
        r *= s;
        return r;
    }
    template <typename S, typename T, bool SO>
    typename std::enable_if<IsScalar<S>::value, CompressedMatrix<T, SO>>::type operator*(const CompressedMatrix<T, SO>& m, const S& s)
    {
        return s * m;
    }
    template <typename S, typename T, bool SO>
    typename std::enable_if<IsScalar<S>::value, CompressedMatrix<T, SO>>::type operator/(const CompressedMatrix<T, SO>& m, const S& s)
    {
        CompressedMatrix<T, SO> r(m);
        r *= T(1) / s;
        return r;
    }
    template <typename T, bool SO>
    size_t rows(const CompressedMatrix<T, SO>& m)
    {
        return m.rows();
    }
    template <typename T, bool SO>
    size_t columns(const CompressedMatrix<T, SO>& m)
    {
        return m.columns();
    }
    template <typename T, bool SO>
    size_t nonZeros(const CompressedMatrix<T, SO>& m)
    {
        return m.nonZeros();
    }
    template <typename T, bool SO>
    bool isSquare(const CompressedMatrix<T, SO>& m)
    {
        return m.rows() == m.columns();
    }
    template <typename T, bool SO>
    size_t rows(const DynamicMatrix<T, SO>& m)
    {
        return m.rows();
    }
    template <typename T, bool SO>
    size_t columns(const DynamicMatrix<T, SO>& m)
    {
        return m.columns();
    }
    template <typename T, bool SO>
    bool isSquare(const DynamicMatrix<T, SO>& m)
    {
        return m.rows() == m.columns();
    }
    template <typename T, bool SO>
    DynamicVector<T, columnVector> operator*(const CompressedMatrix<T, SO>& m, const DynamicVector<T, columnVector>& v)
    {
        return m.multiply(v);
    }
} // namespace blaze
#endif
