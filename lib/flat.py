"""A std::vector whose elements live in the object itself (fixed capacity): stands in for the heap in drivers of fixed sizes, so
that the promotion of memory to registers reaches what a vector holds.  Only the storage differs: the code under analysis
is compiled unchanged against it."""
FLAT = """#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <numeric>
#include <stdexcept>
#include <utility>
#include <vector>
namespace std {
template <class E> class vector<E, allocator<E>> {
	static constexpr size_t N = %d;
	E buf[N]; size_t n = 0;
	template <class I> using It = enable_if_t<is_convertible_v<typename iterator_traits<I>::iterator_category, input_iterator_tag>, int>;
	void gap(size_t at, size_t k) { if (n + k > N) __builtin_unreachable(); for (size_t i = n; i-- > at;) buf[i + k] = std::move(buf[i]); n += k; }
public:
	using value_type = E; using size_type = size_t; using difference_type = ptrdiff_t; using reference = E&; using const_reference = const E&; using pointer = E*; using const_pointer = const E*;
	using iterator = E*; using const_iterator = const E*; using reverse_iterator = std::reverse_iterator<E*>; using const_reverse_iterator = std::reverse_iterator<const E*>; using allocator_type = allocator<E>;
	vector() noexcept {}
	explicit vector(size_t k) { for (; n < k; ++n) buf[n] = E(); }
	vector(size_t k, const E& v) { for (; n < k; ++n) buf[n] = v; }
	template <class I, It<I> = 0> vector(I f, I l) { for (; f != l; ++f) buf[n++] = *f; }
	vector(initializer_list<E> l) { for (auto& v : l) buf[n++] = v; }
	vector(const vector& o) { for (; n < o.n; ++n) buf[n] = o.buf[n]; }
	vector(vector&& o) noexcept { for (; n < o.n; ++n) buf[n] = std::move(o.buf[n]); o.n = 0; }
	vector& operator=(const vector& o) { if (this != &o) { for (size_t i = 0; i < o.n; ++i) buf[i] = o.buf[i]; n = o.n; } return *this; }
	vector& operator=(vector&& o) noexcept { if (this != &o) { for (size_t i = 0; i < o.n; ++i) buf[i] = std::move(o.buf[i]); n = o.n; o.n = 0; } return *this; }
	vector& operator=(initializer_list<E> l) { assign(l.begin(), l.end()); return *this; }
	template <class I, It<I> = 0> void assign(I f, I l) { n = 0; for (; f != l; ++f) buf[n++] = *f; }
	void assign(size_t k, const E& v) { n = 0; for (; n < k; ++n) buf[n] = v; }
	void assign(initializer_list<E> l) { assign(l.begin(), l.end()); }
	size_t size() const noexcept { return n; } bool empty() const noexcept { return n == 0; } size_t capacity() const noexcept { return N; } size_t max_size() const noexcept { return N; }
	void reserve(size_t) {} void shrink_to_fit() {} void clear() noexcept { n = 0; }
	void resize(size_t k) { for (; n < k; ++n) buf[n] = E(); n = k; }
	void resize(size_t k, const E& v) { for (; n < k; ++n) buf[n] = v; n = k; }
	E* data() noexcept { return buf; } const E* data() const noexcept { return buf; }
	E& operator[](size_t i) { return buf[i]; } const E& operator[](size_t i) const { return buf[i]; }
	E& at(size_t i) { return buf[i]; } const E& at(size_t i) const { return buf[i]; }
	E& front() { return buf[0]; } const E& front() const { return buf[0]; } E& back() { return buf[n - 1]; } const E& back() const { return buf[n - 1]; }
	E* begin() noexcept { return buf; } E* end() noexcept { return buf + n; } const E* begin() const noexcept { return buf; } const E* end() const noexcept { return buf + n; }
	const E* cbegin() const noexcept { return buf; } const E* cend() const noexcept { return buf + n; }
	reverse_iterator rbegin() { return reverse_iterator(end()); } reverse_iterator rend() { return reverse_iterator(begin()); }
	const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); } const_reverse_iterator rend() const { return const_reverse_iterator(begin()); }
	const_reverse_iterator crbegin() const { return rbegin(); } const_reverse_iterator crend() const { return rend(); }
	void push_back(const E& v) { buf[n] = v; ++n; } void push_back(E&& v) { buf[n] = std::move(v); ++n; } void pop_back() { --n; }
	template <class... A> E& emplace_back(A&&... a) { buf[n] = E(std::forward<A>(a)...); return buf[n++]; }
	template <class... A> E* emplace(const E* p, A&&... a) { const size_t at = p - buf; E v(std::forward<A>(a)...); gap(at, 1); buf[at] = std::move(v); return buf + at; }
	E* insert(const E* p, const E& v) { return emplace(p, v); }
	E* insert(const E* p, size_t k, const E& v) { const size_t at = p - buf; const E c = v; gap(at, k); for (size_t i = 0; i < k; ++i) buf[at + i] = c; return buf + at; }
	template <class I, It<I> = 0> E* insert(const E* p, I f, I l) { const size_t at = p - buf; const size_t k = std::distance(f, l); gap(at, k); for (size_t i = 0; i < k; ++i, ++f) buf[at + i] = *f; return buf + at; }
	E* insert(const E* p, initializer_list<E> l) { return insert(p, l.begin(), l.end()); }
	E* erase(const E* p) { return erase(p, p + 1); }
	E* erase(const E* f, const E* l) { const size_t a = f - buf, b = l - buf; for (size_t i = b; i < n; ++i) buf[a + i - b] = std::move(buf[i]); n -= b - a; return buf + a; }
	void swap(vector& o) { std::swap(*this, o); }
	bool operator==(const vector& o) const { return std::equal(begin(), end(), o.begin(), o.end()); }
	bool operator!=(const vector& o) const { return !(*this == o); }
};
}
"""
def flat(n=12): return FLAT % n
