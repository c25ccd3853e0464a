// A class-type pointer for the fancy-pointer configuration: stores its address scrambled, counts dereferences and steps.
#ifndef CBV_FANCY_H
#define CBV_FANCY_H
#include <iterator>
#include <type_traits>
#include <memory>
template <class T> class FPtr {
    size_t x;
    static const size_t K = 0x5A5A5A5A5A5A5A5Aull;
public:
    typedef std::random_access_iterator_tag iterator_category; typedef typename std::remove_cv<T>::type value_type;
    typedef T element_type; typedef ptrdiff_t difference_type; typedef FPtr pointer; typedef T& reference;
    template <class U> using rebind = FPtr<U>;
    FPtr() : x(K) {}
    FPtr(std::nullptr_t) : x(K) {}
    FPtr(int) : x(K) {}
    FPtr(T* p) : x((size_t)p ^ K) {}
    template <class U, class = typename std::enable_if<std::is_convertible<U*, T*>::value && !std::is_same<U, T>::value>::type>
    FPtr(const FPtr<U>& o) : x((size_t)(T*)o.raw() ^ K) {}
    T* raw() const { return (T*)(x ^ K); }
    T& operator*() const { ++G.n.steps; return *raw(); }
    T* operator->() const { ++G.n.steps; return raw(); }
    T& operator[](ptrdiff_t n) const { ++G.n.steps; return raw()[n]; }
    explicit operator bool() const { return x != K; }
    FPtr& operator++() { return *this += 1; }
    FPtr operator++(int) { FPtr t(*this); ++*this; return t; }
    FPtr& operator--() { return *this += -1; }
    FPtr operator--(int) { FPtr t(*this); --*this; return t; }
    FPtr& operator+=(ptrdiff_t n) { ++G.n.steps; x = (size_t)(raw() + n) ^ K; return *this; }
    FPtr& operator-=(ptrdiff_t n) { return *this += -n; }
    FPtr operator+(ptrdiff_t n) const { FPtr t(*this); return t += n; }
    FPtr operator-(ptrdiff_t n) const { FPtr t(*this); return t += -n; }
    static FPtr pointer_to(T& r) { return FPtr(std::addressof(r)); }
    template <class U> ptrdiff_t operator-(const FPtr<U>& o) const { ++G.n.steps; return raw() - o.raw(); }
};
template <class T, class U> bool operator==(const FPtr<T>& a, const FPtr<U>& b) { return a.raw() == b.raw(); }
template <class T, class U> bool operator!=(const FPtr<T>& a, const FPtr<U>& b) { return a.raw() != b.raw(); }
template <class T, class U> bool operator<(const FPtr<T>& a, const FPtr<U>& b) { return a.raw() < b.raw(); }
template <class T, class U> bool operator>(const FPtr<T>& a, const FPtr<U>& b) { return a.raw() > b.raw(); }
template <class T, class U> bool operator<=(const FPtr<T>& a, const FPtr<U>& b) { return a.raw() <= b.raw(); }
template <class T, class U> bool operator>=(const FPtr<T>& a, const FPtr<U>& b) { return a.raw() >= b.raw(); }
template <class T> bool operator==(const FPtr<T>& a, int) { return a.raw() == 0; }
template <class T> bool operator!=(const FPtr<T>& a, int) { return a.raw() != 0; }
template <class T> bool operator==(int, const FPtr<T>& a) { return a.raw() == 0; }
template <class T> bool operator!=(int, const FPtr<T>& a) { return a.raw() != 0; }
template <class T> FPtr<T> operator+(ptrdiff_t n, const FPtr<T>& p) { return p + n; }
#endif
